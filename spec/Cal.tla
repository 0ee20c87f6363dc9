-------------------------------- MODULE Cal --------------------------------
(***************************************************************************)
(* Calendar, clock and time zones.                                         *)
(* An instant (UTC) is <<day, sec, ns>>: days since 1970-01-01, seconds of *)
(* the day, nanoseconds of the second; <<>> is the missing instant.  A     *)
(* wall-clock reading has the same shape.  Dates are day numbers (NA       *)
(* missing).  Time zones are given by the rules of the tz database, from   *)
(* 1970 through 2040, not by a table.                                      *)
(***************************************************************************)
EXTENDS RtBase

Miss == <<>>

(* ---- the Gregorian calendar ---- *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DaysBeforeYear(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DayNum(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1
YearOf(n) == LET y == 1970 + n \div 365 IN IF DaysBeforeYear(y) > n THEN y - 1 ELSE y
DoyOf(n) == n - DaysBeforeYear(YearOf(n))            \* 0-based
MonthOf(n) == LET y == YearOf(n) doy == DoyOf(n) IN CHOOSE m \in 1..12 : DaysBeforeMonth(y, m) <= doy /\ doy < DaysBeforeMonth(y, m) + MonthLen(y, m)
DomOf(n) == DoyOf(n) - DaysBeforeMonth(YearOf(n), MonthOf(n)) + 1
DowOf(n) == (n + 3) % 7                              \* Monday = 0
ValidCivil(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)

(* ---- instants and durations: <<day, sec, ns>> with 0 <= sec < 86400, 0 <= ns < 10^9 ---- *)
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
TLeq(a, b) == a = b \/ TLess(a, b)
Norm(d, s, n) ==                                      \* |s| < 2*10^9, |n| < 2*10^9
  LET s1 == s + n \div 1000000000  n1 == n % 1000000000
  IN <<d + s1 \div 86400, s1 % 86400, n1>>
TAdd(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
TNeg(a) == Norm(-a[1], -a[2], -a[3])
TSub(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
PlusSec(a, k) == Norm(a[1], a[2] + k, a[3])

(* ---- time zones ---- *)
SunOnAfter(y, m, d) == LET n == DayNum(y, m, d) IN n + ((6 - DowOf(n)) % 7)
LastSun(y, m) == SunOnAfter(y, m, MonthLen(y, m) - 6)
Hr(h) == h * 3600
Zones == {"UTC", "America/New_York", "Europe/Dublin", "Australia/Sydney", "Asia/Hong_Kong", "Asia/Tokyo", "Asia/Seoul", "Asia/Kolkata"}
Canon(z) == CASE z = "NYC" -> "America/New_York" [] z = "US/Eastern" -> "America/New_York" [] z = "DUBLIN" -> "Europe/Dublin"
              [] z = "Sydney" -> "Australia/Sydney" [] z = "Hongkong" -> "Asia/Hong_Kong" [] z = "Tokyo" -> "Asia/Tokyo"
              [] z = "Seoul" -> "Asia/Seoul" [] z = "GMT" -> "UTC" [] OTHER -> z
BaseOff(z) == CASE z = "UTC" -> 0 [] z = "America/New_York" -> -Hr(5) [] z = "Europe/Dublin" -> 0 [] z = "Australia/Sydney" -> Hr(10)
                [] z = "Asia/Hong_Kong" -> Hr(8) [] z = "Asia/Tokyo" -> Hr(9) [] z = "Asia/Seoul" -> Hr(9) [] z = "Asia/Kolkata" -> Hr(5) + 1800
\* the UTC instants at which summer time starts and ends in year y
Starts(z, y) ==
  CASE z = "America/New_York" ->
         IF y < 1970 THEN {} ELSE
         {<<(CASE y = 1974 -> DayNum(1974, 1, 6) [] y = 1975 -> DayNum(1975, 2, 23) [] y >= 2007 -> SunOnAfter(y, 3, 8)
              [] y >= 1987 -> SunOnAfter(y, 4, 1) [] OTHER -> LastSun(y, 4)), Hr(7), 0>>}
    [] z = "Europe/Dublin" ->
         (CASE y < 1970 -> {} [] y = 1970 -> {<<0, 0, 0>>} [] y = 1971 -> {}
           [] y <= 1980 -> {<<SunOnAfter(y, 3, 16), Hr(2), 0>>} [] OTHER -> {<<LastSun(y, 3), Hr(1), 0>>})
    [] z = "Australia/Sydney" ->
         (CASE y < 1971 -> {} [] y = 1986 -> {<<DayNum(1986, 10, 18), Hr(16), 0>>} [] y = 2000 -> {<<LastSun(2000, 8) - 1, Hr(16), 0>>}
           [] y >= 2008 -> {<<SunOnAfter(y, 10, 1) - 1, Hr(16), 0>>} [] OTHER -> {<<LastSun(y, 10) - 1, Hr(16), 0>>})
    [] z = "Asia/Hong_Kong" ->
         (CASE y \in {1970, 1971, 1972, 1975, 1976} -> {<<SunOnAfter(y, 4, 16) - 1, Hr(19) + 1800, 0>>}
           [] y = 1973 -> {<<SunOnAfter(y, 4, 16) - 1, Hr(19) + 1800, 0>>, <<DayNum(1973, 12, 29), Hr(19) + 1800, 0>>}
           [] y = 1979 -> {<<DayNum(1979, 5, 12), Hr(19) + 1800, 0>>} [] OTHER -> {})
    [] z = "Asia/Seoul" -> IF y \in {1987, 1988} THEN {<<SunOnAfter(y, 5, 8) - 1, Hr(17), 0>>} ELSE {}
    [] OTHER -> {}
Ends(z, y) ==
  CASE z = "America/New_York" -> IF y < 1970 THEN {} ELSE {<<IF y >= 2007 THEN SunOnAfter(y, 11, 1) ELSE LastSun(y, 10), Hr(6), 0>>}
    [] z = "Europe/Dublin" ->
         (CASE y < 1971 -> {} [] y = 1971 -> {<<DayNum(1971, 10, 31), Hr(2), 0>>} [] y <= 1980 -> {<<SunOnAfter(y, 10, 23), Hr(2), 0>>}
           [] y <= 1989 -> {<<SunOnAfter(y, 10, 23), Hr(1), 0>>} [] y <= 1995 -> {<<SunOnAfter(y, 10, 22), Hr(1), 0>>}
           [] OTHER -> {<<LastSun(y, 10), Hr(1), 0>>})
    [] z = "Australia/Sydney" ->
         (CASE y < 1972 -> {} [] y = 1972 -> {<<DayNum(1972, 2, 26), Hr(16), 0>>} [] y = 1982 -> {<<SunOnAfter(y, 4, 1) - 1, Hr(16), 0>>}
           [] y <= 1985 -> {<<SunOnAfter(y, 3, 1) - 1, Hr(16), 0>>} [] y <= 1989 -> {<<SunOnAfter(y, 3, 15) - 1, Hr(16), 0>>}
           [] y <= 1995 -> {<<SunOnAfter(y, 3, 1) - 1, Hr(16), 0>>} [] y = 2006 \/ y >= 2008 -> {<<SunOnAfter(y, 4, 1) - 1, Hr(16), 0>>}
           [] OTHER -> {<<LastSun(y, 3) - 1, Hr(16), 0>>})
    [] z = "Asia/Hong_Kong" ->
         (CASE y \in 1970..1976 -> {<<SunOnAfter(y, 10, 16) - 1, Hr(18) + 1800, 0>>}
           [] y = 1979 -> {<<DayNum(1979, 10, 20), Hr(18) + 1800, 0>>} [] OTHER -> {})
    [] z = "Asia/Seoul" -> IF y \in {1987, 1988} THEN {<<SunOnAfter(y, 10, 8) - 1, Hr(17), 0>>} ELSE {}
    [] OTHER -> {}
StartsT == [z \in Zones |-> [y \in 1968..2042 |-> Starts(z, y)]]
EndsT   == [z \in Zones |-> [y \in 1968..2042 |-> Ends(z, y)]]
\* summer time is on when a start precedes t with no end in between
DstOn(z, t) ==
  LET y == YearOf(t[1])
      S == {s \in StartsT[z][y - 1] \cup StartsT[z][y] : TLeq(s, t)}
      E == {s \in EndsT[z][y - 1] \cup EndsT[z][y] : TLeq(s, t)}
  IN \E s \in S : \A e \in E : TLess(e, s)
OffsetAt(z, t) == BaseOff(z) + (IF DstOn(z, t) THEN 3600 ELSE 0)
LocalOf(z, t) == PlusSec(t, OffsetAt(z, t))
\* the instants a wall-clock reading can mean: the first of two in an
\* ambiguous hour, either reading of an hour that does not exist
UtcOf(z, w) ==
  LET std == PlusSec(w, -BaseOff(z))  sum == PlusSec(w, -(BaseOff(z) + 3600))
      okstd == ~DstOn(z, std)  oksum == DstOn(z, sum)
  IN IF oksum THEN {sum} ELSE IF okstd THEN {std} ELSE {std, sum}

(* ---- fields of an instant shown in a zone ---- *)
MonthAbb == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
MonthName == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
DayAbb == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
B(x) == IF x THEN 1 ELSE 0
YMD(n) == YearOf(n) * 10000 + MonthOf(n) * 100 + DomOf(n)
DateField(f, n) ==
  CASE f = "year" -> YearOf(n) [] f = "month" -> MonthOf(n) [] f = "day_of_month" -> DomOf(n) [] f = "day_of_year" -> DoyOf(n) + 1
    [] f = "day_of_week" -> DowOf(n) [] f = "is_weekend" -> B(DowOf(n) > 4) [] f = "is_weekday" -> B(DowOf(n) < 5)
    [] f = "is_leapyear" -> B(IsLeap(YearOf(n))) [] f = "yyyymmdd" -> YMD(n)
    [] f = "monthyear" -> MonthAbb[MonthOf(n)] \o ToString(YearOf(n))
    [] f = "start_of_month" -> (IF n < 31 THEN NA ELSE n - DomOf(n) + 1)
    [] f = "start_of_week" -> n - DowOf(n)
    [] f = "days_since_epoch" -> n
    [] OTHER -> BAD
ClockField(f, z, t) ==
  LET w == LocalOf(z, t)
  IN CASE f = "seconds_since_epoch" -> <<w[1], w[2], 0>>
       [] f \in {"nanos_since_midnight", "millis_since_midnight", "day", "hour", "hour_span", "time_since_midnight"} -> <<0, w[2], w[3]>>
       [] f \in {"minute", "minute_span"} -> <<0, w[2] % 3600, w[3]>>
       [] f \in {"second", "second_span"} -> <<0, w[2] % 60, w[3]>>
       [] f \in {"millisecond", "millisecond_span"} -> <<0, 0, w[3]>>
       [] f \in {"microsecond", "microsecond_span"} -> <<0, 0, w[3] % 1000000>>
       [] f \in {"nanosecond", "nanosecond_span"} -> <<0, 0, w[3] % 1000>>
       [] f \in {"nanos_since_start_of_year", "time_since_start_of_year"} -> <<DoyOf(w[1]), w[2], w[3]>>
       [] f = "is_dst" -> B(DstOn(z, t))
       [] f = "tz_offset" -> OffsetAt(z, t)
       [] f = "date" -> CHOOSE u \in UtcOf(z, <<w[1], 0, 0>>) : TRUE
       [] OTHER -> DateField(f, w[1])
Durations == {"seconds_since_epoch", "nanos_since_midnight", "millis_since_midnight", "day", "hour", "hour_span", "time_since_midnight", "minute", "minute_span",
              "second", "second_span", "millisecond", "millisecond_span", "microsecond", "microsecond_span", "nanosecond", "nanosecond_span",
              "nanos_since_start_of_year", "time_since_start_of_year", "date"}
Flags == {"is_weekend", "is_weekday", "is_leapyear"}
\* a TimeSpan holds a double: whole nanoseconds only up to about 100 days
FieldIs(f, o, x) == o = x \/ (f = "time_since_start_of_year" /\ x[1] > 50 /\ Len(o) = 3 /\ TLeq(TSub(o, <<0, 0, 2>>), x) /\ TLeq(x, TAdd(o, <<0, 0, 2>>)))
MissField(f) == IF f \in Durations THEN Miss ELSE IF f \in Flags THEN 0 ELSE NA

(* ---- text ---- *)
Pad(w, x) == LET s == ToString(x) IN FoldLeft(LAMBDA acc, i : "0" \o acc, s, Idx(w - Len(s)))
\* styles: w = wall clock <<day, sec, ns>>
Text(style, w) ==
  LET y == Pad(4, YearOf(w[1]))  mo == Pad(2, MonthOf(w[1]))  d == Pad(2, DomOf(w[1]))
      h == Pad(2, w[2] \div 3600)  mi == Pad(2, (w[2] \div 60) % 60)  s == Pad(2, w[2] % 60)
      h12 == Pad(2, ((w[2] \div 3600 + 11) % 12) + 1)  ap == IF w[2] < Hr(12) THEN "AM" ELSE "PM"
      n9 == Pad(9, w[3])  n6 == Pad(6, w[3] \div 1000)
      ymd == y \o mo \o d   y_m_d == y \o "-" \o mo \o "-" \o d   hms == h \o ":" \o mi \o ":" \o s
  IN CASE style = "ymd" -> ymd
       [] style = "y-m-d" -> y_m_d
       [] style = "y-m-d h:m:s" -> y_m_d \o " " \o hms
       [] style = "y-m-dTh:m:s.n" -> y_m_d \o "T" \o hms \o "." \o n9
       [] style = "y-m-d h:m:s.n" -> y_m_d \o " " \o hms \o "." \o n9
       [] style = "y-m-d h:m" -> y_m_d \o " " \o h \o ":" \o mi
       [] style = "ymd h:m:s" -> ymd \o " " \o hms
       [] style = "ymd h:m:s.n" -> ymd \o " " \o hms \o "." \o n9
       [] style = "ymd h:m:s.u" -> ymd \o " " \o hms \o "." \o n6
       [] style = "h:m:s" -> hms
       [] style = "h:m" -> h \o ":" \o mi
       [] style = "h:m:s.u" -> hms \o "." \o n6
       [] style = "h:m:s.n" -> hms \o "." \o n9
       [] style = "doy" -> Pad(3, DoyOf(w[1]) + 1)
       [] style = "a b d" -> DayAbb[DowOf(w[1]) + 1] \o " " \o MonthAbb[MonthOf(w[1])] \o " " \o d
       [] style = "m/d/y" -> mo \o "/" \o d \o "/" \o y
       [] style = "d b y" -> d \o " " \o MonthAbb[MonthOf(w[1])] \o " " \o y
       [] style = "B d, y h12" -> MonthName[MonthOf(w[1])] \o " " \o d \o ", " \o y \o " " \o h12 \o ":" \o mi \o ":" \o s \o " " \o ap
       [] style = "m/d/yy h:m:s" -> mo \o "/" \o d \o "/" \o Pad(2, YearOf(w[1]) % 100) \o " " \o hms
       [] OTHER -> "?"
\* what part of the wall clock a style carries
Carried(style, w) ==
  CASE style \in {"ymd", "y-m-d", "m/d/y", "d b y"} -> <<w[1], 0, 0>>
    [] style = "y-m-d h:m" -> <<w[1], w[2] - (w[2] % 60), 0>>
    [] style \in {"y-m-d h:m:s", "ymd h:m:s", "B d, y h12", "m/d/yy h:m:s"} -> <<w[1], w[2], 0>>
    [] style = "h:m:s" -> <<0, w[2], 0>>
    [] style = "h:m" -> <<0, w[2] - (w[2] % 60), 0>>
    [] style = "h:m:s.u" -> <<0, w[2], w[3] - (w[3] % 1000)>>
    [] style = "h:m:s.n" -> <<0, w[2], w[3]>>
    [] style = "ymd h:m:s.u" -> <<w[1], w[2], w[3] - (w[3] % 1000)>>
    [] OTHER -> w

(* ---- buckets of the day ---- *)
\* cut points ascending in seconds of the day; a reading lies in bucket i when cut[i] < x <= cut[i+1];
\* the first bucket has no lower bound below its first point (0 = outside)
CutBin(cuts, w) ==
  LET x == <<0, w[2], w[3]>>
      below == Cardinality({i \in 1..Len(cuts) : TLess(<<0, cuts[i], 0>>, x)})
  IN IF below >= Len(cuts) THEN 0 ELSE below

(* ---- the decider ---- *)
CalStart == 0
All(n, P(_)) == \A i \in 1..n : P(i)
CalJudge(st, ev) ==
  V(0,
  CASE ev.e = "field" ->
         LET z == Canon(ev.z)  n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n, ev.cls \o "-" \o ev.f \o "-length">>,
           <<Len(ev.out) # n \/ All(n, LAMBDA i : IF ev.t[i] = Miss THEN ev.out[i] = MissField(ev.f)
                                           ELSE FieldIs(ev.f, ev.out[i], ClockField(ev.f, z, ev.t[i]))), ev.cls \o "-" \o ev.f>>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "dfield" ->
         LET n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n, ev.cls \o "-" \o ev.f \o "-length">>,
           <<Len(ev.out) # n \/ All(n, LAMBDA i : ev.out[i] = (IF ev.t[i] = NA THEN MissField(ev.f)
                    ELSE IF ev.f = "seconds_since_epoch" THEN <<ev.t[i], 0, 0>> ELSE DateField(ev.f, ev.t[i]))), ev.cls \o "-" \o ev.f>>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "parse" ->
         LET z == Canon(ev.from)  n == Len(ev.w) IN FirstFail(<<
           <<All(n, LAMBDA i : ev.w[i] = Miss \/ ev.text[i] = Text(ev.style, ev.w[i])), "unparseable-case">>,
           <<Len(ev.out) = n /\ All(n, LAMBDA i :
               IF ev.w[i] = Miss THEN ev.out[i] = Miss
               ELSE LET c == Carried(ev.style, ev.w[i]) IN
                    IF ev.cls = "Date" THEN ev.out[i] = <<c[1], 0, 0>>
                      ELSE IF ev.cls = "TimeSpan" THEN ev.out[i] = c
                      ELSE ev.out[i] \in UtcOf(z, c)), "parse-" \o ev.cls \o "-" \o ev.style>>,
           <<ev.cls # "DateTimeNano" \/ Canon(ev.zout) = Canon(ev.to), "parse-zone">>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "conv" ->       \* a wall-clock number in zone `from`
         LET z == Canon(ev.from)  n == Len(ev.w) IN FirstFail(<<
           <<Len(ev.out) = n /\ All(n, LAMBDA i : IF ev.w[i] = Miss THEN ev.out[i] = Miss ELSE ev.out[i] \in UtcOf(z, ev.w[i])), "conv-" \o ev.form>>,
           <<Canon(ev.zout) = Canon(ev.to), "conv-zone">>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "same" ->       \* an operation that keeps the instants
         FirstFail(<<
           <<ev.out = ev.t, ev.form \o "-instants">>,
           <<Canon(ev.zout) = Canon(ev.to), ev.form \o "-zone">>,
           <<ev.cls = ev.clsout, ev.form \o "-class">>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "show" ->
         LET z == Canon(ev.z)  n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n /\ All(n, LAMBDA i : ev.out[i] = (IF ev.t[i] = Miss THEN ev.miss ELSE Text(ev.style, LocalOf(z, ev.t[i])))), "show-" \o ev.form \o "-" \o ev.style>>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "dshow" ->
         LET n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n /\ All(n, LAMBDA i : ev.out[i] = (IF ev.t[i] = NA THEN ev.miss ELSE Text(ev.style, <<ev.t[i], 0, 0>>))), "dshow-" \o ev.form \o "-" \o ev.style>>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "sshow" ->      \* time spans of less than a day, shown as a clock
         LET n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n /\ All(n, LAMBDA i : ev.out[i] = (IF ev.t[i] = Miss THEN ev.miss
                ELSE LET neg == ev.t[i][1] < 0  a == IF neg THEN TNeg(ev.t[i]) ELSE ev.t[i]
                     IN (IF neg THEN "-" ELSE "") \o (IF ev.form = "str" /\ a[1] > 0 THEN ToString(a[1]) \o "d " ELSE "") \o Text(ev.style, <<0, a[2], a[3]>>))), "sshow-" \o ev.form \o "-" \o ev.style>>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "hhmmss" ->
         LET n == Len(ev.t) IN FirstFail(<<
           <<Len(ev.out) = n /\ All(n, LAMBDA i : ev.out[i] = (ev.t[i][1] * 24 + ev.t[i][2] \div 3600) * 10000 + ((ev.t[i][2] \div 60) % 60) * 100 + (ev.t[i][2] % 60)), "hhmmss">> >>)
    [] ev.e = "range" ->      \* Date.range
         LET stop == IF ev.days >= 0 THEN ev.a + ev.days * ev.step ELSE ev.b + (IF ev.step = 1 /\ ev.closed # "left" THEN 1 ELSE 0)
             from == ev.a + (IF ev.days < 0 /\ ev.step = 1 /\ ev.closed = "right" THEN 1 ELSE 0)
             n == IF stop <= from THEN 0 ELSE (stop - from + ev.step - 1) \div ev.step
         IN FirstFail(<< <<ev.out = [i \in 1..n |-> from + (i - 1) * ev.step], "date-range">> >>)
    [] ev.e = "cut" ->
         LET z == Canon(ev.z)  n == Len(ev.t) IN FirstFail(<<
           <<ev.nlab = Len(ev.cuts) - 1, "cut-label-count">>,
           <<Len(ev.out) = n /\ All(n, LAMBDA i : ev.t[i] = Miss \/ ev.out[i] = CutBin(ev.cuts, LocalOf(z, ev.t[i]))), "cut-time">>,
           <<Len(ev.labels) # Len(ev.cuts) - 1 \/ All(Len(ev.labels), LAMBDA i :
                (ev.labels[i] = "pre" /\ i = 1 /\ ev.pre = 1) \/ (ev.labels[i] = "post" /\ i = Len(ev.labels) /\ ev.post = 1)
                \/ ev.labels[i] = Text(ev.style, <<0, ev.cuts[IF ev.side = "right" THEN i + 1 ELSE i] % 86400, 0>>)), "cut-labels">>,
           <<ev.frame = 1, "operand-changed">> >>)
    [] ev.e = "resample" ->   \* step in seconds dividing a day, from the epoch
         LET n == Len(ev.t)  Floor(t) == <<t[1], t[2] - (t[2] % ev.step), 0>>
             lo == CHOOSE i \in 1..n : \A j \in 1..n : TLeq(ev.t[i], ev.t[j])
             hi == CHOOSE i \in 1..n : \A j \in 1..n : TLeq(ev.t[j], ev.t[i])
         IN FirstFail(<<
           <<IF ev.drop = 1 THEN ev.out = [i \in 1..n |-> IF ev.t[i] = Miss THEN Miss ELSE Floor(ev.t[i])]
             ELSE /\ Len(ev.out) > 0 /\ ev.out[1] = Floor(ev.t[lo]) /\ ev.out[Len(ev.out)] = Floor(ev.t[hi])
                  /\ All(Len(ev.out) - 1, LAMBDA i : ev.out[i + 1] = PlusSec(ev.out[i], ev.step)), "resample">>,
           <<Canon(ev.zout) = Canon(ev.z), "resample-zone">> >>)
    [] ev.e = "unexpected" -> "unexpected-exception:" \o ev.why
    [] OTHER -> "unknown-event")
=============================================================================
