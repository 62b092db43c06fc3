------------------------------ MODULE ContentMC ------------------------------
(* Small exhaustive models of what is put on one slide; each behaviour is a slide *)
(* to replay.  Kind selects the model: "bullets" (sequences of bullet-building    *)
(* calls), "chart" (type, number of series, number of points), "table" (grids     *)
(* with merged regions), "text" (a text of tokens at a place).                    *)
EXTENDS Deck, TableMerge, Json
CONSTANTS Kind, MaxLen, Toks, Ops, Layouts
VARIABLES v, fin
vars == <<v, fin>>

ChartTypes == {"Bar", "BarHorizontal", "BarStacked", "BarStacked100", "Line", "LineMarkers", "LineStacked", "Pie", "Doughnut", "Area", "AreaStacked", "AreaStacked100",
          "Scatter", "ScatterLines", "ScatterSmooth", "Bubble", "Radar", "RadarFilled", "StockHLC", "StockOHLC", "Combo"}
Places == {"title", "bullet", "sub", "cell", "shape", "code", "notes", "chart", "series", "category", "alt", "url", "tip", "label", "deck"}

Init == /\ fin = FALSE
        /\ v \in CASE Kind = "bullets" -> {[layout |-> l, ops |-> <<>>] : l \in Layouts}
                   [] Kind = "chart" -> {[ty |-> t, ns |-> n, np |-> p] : t \in ChartTypes, n \in 0..MaxLen, p \in 0..MaxLen}
                   [] Kind = "table" -> {[rows |-> r, cols |-> c, regions |-> <<>>] : r \in 1..3, c \in 1..3}
                   [] OTHER -> {[place |-> p, toks |-> <<>>] : p \in Places}
Grow ==
  CASE Kind = "bullets" -> Len(v.ops) < MaxLen /\ \E o \in Ops : v' = [v EXCEPT !.ops = Append(@, o)]
    [] Kind = "table" -> Len(v.regions) < MaxLen /\ \E r \in 0..(v.rows - 1), c \in 0..(v.cols - 1), h \in 1..v.rows, w \in 1..v.cols :
                            /\ h * w > 1 /\ Acceptable(v, Region(r, c, h, w))
                            /\ v' = Merge(v, Region(r, c, h, w))
    [] Kind = "text" -> Len(v.toks) < MaxLen /\ \E t \in Toks : v' = [v EXCEPT !.toks = Append(@, t)]
    [] OTHER -> FALSE
Next == (~fin /\ Grow /\ UNCHANGED fin) \/ (~fin /\ fin' = TRUE /\ UNCHANGED v)
Spec == Init /\ [][Next]_vars

(* bullets: one per adding call, in order; a two-column slide splits them in two   *)
(* runs that concatenate to the whole list                                         *)
Abs1(o) == [m |-> o, t |-> o, st |-> Simple("RomanUpper"), lvl |-> 2, f |-> <<>>]
SlideOf == [layout |-> v.layout, b |-> [i \in DOMAIN v.ops |-> Abs1(v.ops[i])], csz |-> <<>>, cb |-> <<>>, ci |-> <<>>, cu |-> <<>>, cc |-> <<>>, table |-> <<>>]
BulletsKept == Kind = "bullets" =>
  LET adds == SelectSeq(v.ops, LAMBDA o : o # "style")
      body == Flat(ExpBodies(SlideOf)) IN
  HasBody(SlideOf) => [i \in DOMAIN body |-> body[i].t] = adds
(* charts: the plots together carry the series in order, none twice *)
Ser(n) == [i \in 1..n |-> [name |-> ToString(i), vals |-> <<>>, abs |-> <<>>]]
SeriesKept == Kind = "chart" =>
  LET c == [ty |-> v.ty, series |-> Ser(v.ns)]
      all == Flat([k \in DOMAIN Plots(c) |-> Plots(c)[k].s]) IN
  IF First(v.ty) THEN all = SubSeq(Ser(v.ns), 1, Min2(1, v.ns)) ELSE all = Ser(v.ns)
(* tables: every cell is an anchor, merged away by exactly one region, or plain *)
TableSane == Kind = "table" => NoOverlap(v) /\ InGrid(v) /\ AnchorsCover(v)
Emitted == fin => PrintT("@@" \o ToJson(v))
=============================================================================
