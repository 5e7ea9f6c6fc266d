--------------------------- MODULE SamplingTrace ---------------------------
EXTENDS TraceBase, Sampling
\* meta: n, cards, parents, q (per variable a list of [comb, m], intensities in 1/10000), stats.
\*   traj   maxtr tend cols err   a trajectory begins (bounds: -1 none, tend in 1/10000)
\*   row    t x                   its rows
\*   end                          its end
\*   judge                        compare all transitions seen with the intensities

Nodes(st) == 1..st.net.n
Key(net, x, j) == <<j, Config(net, x, j), x[j]>>

SMInit(meta) ==
    LET Q == [j \in 1..meta.n |-> [u \in {meta.q[j][i].comb : i \in DOMAIN meta.q[j]} |->
                 (CHOOSE c \in {meta.q[j][i] : i \in DOMAIN meta.q[j]} : c.comb = u).m]]
        K == UNION {{<<j, u, v>> : u \in DOMAIN Q[j], v \in 0..meta.cards[j] - 1} : j \in 1..meta.n}
        KM == UNION {{<<j, u, v, y>> : u \in DOMAIN Q[j], v \in 0..meta.cards[j] - 1, y \in 0..meta.cards[j] - 1} : j \in 1..meta.n}
    IN {[net |-> [n |-> meta.n, cards |-> meta.cards, parents |-> meta.parents, q |-> Q], stats |-> meta.stats,
         on |-> FALSE, maxtr |-> -1, tend |-> -1, rows |-> 0, t |-> 0, x |-> <<>>,
         T |-> IF meta.stats THEN [k \in K |-> 0] ELSE <<>>, M |-> IF meta.stats THEN [k \in KM |-> 0] ELSE <<>>,
         \* hazard met since the last change, and the number of changes after less than half / a quarter of the usual
         haz |-> [j \in 1..meta.n |-> 0], jumps |-> [j \in 1..meta.n |-> 0],
         half |-> [j \in 1..meta.n |-> 0], quarter |-> [j \in 1..meta.n |-> 0]]}

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})

IsClosing(st, x) == x = Closing(st.net)

RowWhy(st, e) ==
    IF ~st.on THEN {"OneTrajectoryAtATime"} ELSE
    UNION { IF st.rows = 0
            THEN UNION {IF e.t = 0 THEN {} ELSE {"StartsAtZero"},
                        IF e.x = Zero(st.net) \/ IsClosing(st, e.x) THEN {} ELSE {"StartsInStateZero"}}
            ELSE UNION {IF e.t >= st.t THEN {} ELSE {"TimesNeverDecrease"},
                        IF IsClosing(st, st.x) THEN {"NothingAfterClosingRow"}
                        ELSE IF IsClosing(st, e.x) \/ Jump(st.net, st.x, e.x) THEN {} ELSE {"OnePossibleChange"}},
            IF st.tend >= 0 /\ e.t > st.tend THEN {"NotBeyondEndTime"} ELSE {},
            IF st.maxtr >= 0 /\ st.rows > st.maxtr THEN {"NotBeyondTransitions"} ELSE {} }

\* the least rate (1/10000) at which something happens in any state
LeastRate(net) ==
    LET low == [j \in 1..net.n |-> LET R == {-net.q[j][u][v][v] : u \in DOMAIN net.q[j], v \in 1..net.cards[j]}
                                   IN CHOOSE r \in R : \A s \in R : r <= s]
    IN SumOver(low, 1..net.n)

EndWhy(st, e) ==
    UNION { IF st.rows > 0 /\ IsClosing(st, st.x) THEN {} ELSE {"ClosingRow"},
            IF st.maxtr >= 0 /\ st.rows # st.maxtr + 1 THEN {"AsManyRowsAsTransitions"} ELSE {},
            \* nothing for 40 mean times: odds below e^-40
            IF st.stats /\ st.tend >= 0 /\ st.tend - st.t > 2000000000 \div Max(1, LeastRate(st.net) \div 2)
               THEN {"RunsUntilTheEndTime"} ELSE {} }

\* |count - mean| within 6.7 standard deviations, and a little more
Close(count, mean, var) == LET d == Abs(count - mean) - 6 IN d <= 0 \/ (d <= 40000 /\ (d * d) \div 45 <= var)

JudgeWhy(st) ==
    LET net == st.net
        \* intensities in 1/100, times in 1/100: expected numbers of changes
        Q(j, u, v, y) == net.q[j][u][v + 1][y + 1] \div 100
        Left(k) == SumOver([y \in 0..net.cards[k[1]] - 1 |-> IF y = k[3] THEN 0 ELSE st.M[<<k[1], k[2], k[3], y>>]], 0..net.cards[k[1]] - 1)
        Out(k) == SumOver([y \in 0..net.cards[k[1]] - 1 |-> IF y = k[3] THEN 0 ELSE Q(k[1], k[2], k[3], y)], 0..net.cards[k[1]] - 1)
        RateOk(k) == LET T2 == st.T[k] \div 100  m == Left(k) IN
                     LET ex == IF T2 > 100000 THEN (Out(k) * (T2 \div 100)) \div 100 ELSE (Out(k) * T2) \div 10000
                     IN Close(m, ex, Max(m, ex))
        \* all states and configurations in which a variable leaves at the same rate, taken together
        Of(j) == {k \in DOMAIN st.T : k[1] = j}
        RateOkTogether(j) ==
            LET out == [k \in Of(j) |-> Out(k)]  left == [k \in Of(j) |-> Left(k)] IN
            \A r \in {out[k] : k \in Of(j)} :
                LET K == {k \in Of(j) : out[k] = r}
                    m == SumOver(left, K)  T2 == SumOver(st.T, K) \div 100
                    ex == IF T2 > 100000 THEN (r * (T2 \div 100)) \div 100 ELSE (r * T2) \div 10000
                IN Close(m, ex, Max(m, ex))
        ToOk(k) == LET m == Left(k)  o == Out(k) IN
                   \A y \in (0..net.cards[k[1]] - 1) \ {k[3]} :
                      LET qy == Q(k[1], k[2], k[3], y)  c == st.M[<<k[1], k[2], k[3], y>>] IN
                      o = 0 \/ Close(c, (m * qy) \div o, (((m * qy) \div o) * (o - qy)) \div o + 1)
    IN UNION { IF (\A k \in DOMAIN st.T : RateOk(k)) /\ (\A j \in 1..net.n : RateOkTogether(j)) THEN {} ELSE {"LeavesAtTheRate"},
               IF \A k \in DOMAIN st.T : ToOk(k) THEN {} ELSE {"DestinationsInProportion"},
               IF \A j \in 1..net.n : Close(st.half[j], st.jumps[j] \div 2, st.jumps[j] \div 4 + 1)
                                   /\ Close(st.quarter[j], st.jumps[j] \div 4, (3 * st.jumps[j]) \div 16 + 1)
                  THEN {} ELSE {"ExponentialSojourns"} }

SMWhy(st, e) ==
    CASE e.a = "traj" -> UNION {IF e.err = "" THEN {} ELSE {"SamplingEnds"}, IF e.cols THEN {} ELSE {"AllVariablesSampled"}}
      [] e.a = "row" -> RowWhy(st, e)
      [] e.a = "end" -> EndWhy(st, e)
      [] e.a = "judge" -> JudgeWhy(st)

RowSucc(st, e) ==
    LET s1 == [st EXCEPT !.rows = @ + 1, !.t = e.t, !.x = e.x] IN
    IF ~st.stats \/ st.rows = 0 \/ IsClosing(st, e.x) THEN s1
    ELSE LET net == st.net
             dt == e.t - st.t
             K == {Key(net, st.x, j) : j \in 1..net.n}
             j0 == CHOOSE j \in 1..net.n : st.x[j] # e.x[j]
             haz == [j \in 1..net.n |-> Min(st.haz[j] + (Leaving(net, st.x, j) \div 100) * Min(dt, 1000000), 1000000000)]
             km == Key(net, st.x, j0) \o <<e.x[j0]>>
         IN [s1 EXCEPT !.T = [k \in DOMAIN @ |-> IF k \in K THEN Min(@[k] + Min(dt, 1000000000), 1000000000) ELSE @[k]],
                       !.M[km] = @ + 1,
                       !.haz = [haz EXCEPT ![j0] = 0],
                       !.jumps[j0] = @ + 1,
                       \* ln 2 and ln 4/3 in 1/1000000
                       !.half[j0] = @ + (IF haz[j0] < 693147 THEN 1 ELSE 0),
                       !.quarter[j0] = @ + (IF haz[j0] < 287682 THEN 1 ELSE 0)]

SMSucc(st, e) ==
    IF SMWhy(st, e) # {} THEN {}
    ELSE CASE e.a = "traj" -> {[st EXCEPT !.on = TRUE, !.maxtr = e.maxtr, !.tend = e.tend, !.rows = 0, !.t = 0, !.x = <<>>,
                                          !.haz = [j \in DOMAIN @ |-> 0]]}
           [] e.a = "row" -> {RowSucc(st, e)}
           [] e.a = "end" -> {[st EXCEPT !.on = FALSE]}
           [] OTHER -> {st}
=============================================================================
