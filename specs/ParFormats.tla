----------------------------- MODULE ParFormats -----------------------------
(* The parameter and calibration file formats: the fields in file order.      *)
EXTENDS Integers, Sequences
Reals(names) == [i \in 1..Len(names) |-> <<names[i], "real">>]
Ints(names) == [i \in 1..Len(names) |-> <<names[i], "int">>]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Word(n) == <<n, "word">>
Track == Reals(<<"dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc">>) \o Ints(<<"add">>)
Volume == Reals(<<"X_lay0", "Zmin_lay0", "Zmax_lay0", "X_lay1", "Zmin_lay1", "Zmax_lay1", "cnx", "cny", "cn", "csumg", "corrmin", "eps0">>)
Img == <<"img0", "img1", "img2", "img3">>
Cal == <<"cal0", "cal1", "cal2", "cal3">>
Sequence(cams) == [i \in 1..cams |-> Word(Img[i])] \o Ints(<<"first", "last">>)
Control(cams) == Ints(<<"num_cams">>) \o Flatten([i \in 1..cams |-> <<Word(Img[i]), Word(Cal[i])>>])
                 \o Ints(<<"hp_flag", "allCam_flag", "tiff_flag", "imx", "imy">>) \o Reals(<<"pix_x", "pix_y">>) \o Ints(<<"chfield">>)
                 \o Reals(<<"n1", "n2", "n3", "d">>)
TargetPar == Ints(<<"gvthres0", "gvthres1", "gvthres2", "gvthres3", "discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz">>)
Orient == Ints(<<"useflag", "ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag", "interfflag">>)
Ori == Reals(<<"x0", "y0", "z0", "omega", "phi", "kappa", "dm00", "dm01", "dm02", "dm10", "dm11", "dm12", "dm20", "dm21", "dm22",
              "xh", "yh", "cc", "vec_x", "vec_y", "vec_z">>)
Added == Reals(<<"k1", "k2", "k3", "p1", "p2", "scx", "she">>)
Sortgrid == Ints(<<"eps">>)
\* what a camera without a distortion file gets
NoDistortion == [k1 |-> "0.00000000", k2 |-> "0.00000000", k3 |-> "0.00000000", p1 |-> "0.00000000", p2 |-> "0.00000000", scx |-> "1.00000000", she |-> "0.00000000"]
CalRow == <<<<"nr", "int">>, <<"x", "real">>, <<"y", "real">>, <<"z", "real">>>>
Calblock(rows) == Flatten([i \in 1..rows |-> CalRow])
ManOri(cams) == Flatten([i \in 1..cams |-> Ints(<<"a", "b", "c", "d">>)])
\* every format by name; variants differ in the number of cameras or rows
Formats == [f \in {"track", "volume", "target", "orient", "ori", "added", "sortgrid"} |->
              CASE f = "track" -> Track [] f = "volume" -> Volume [] f = "target" -> TargetPar [] f = "orient" -> Orient
                [] f = "ori" -> Ori [] f = "added" -> Added [] f = "sortgrid" -> Sortgrid]
Sized == {"sequence", "control", "calblock", "manori"}
Fmt(f, n) == CASE f = "sequence" -> Sequence(n) [] f = "control" -> Control(n) [] f = "calblock" -> Calblock(n) [] f = "manori" -> ManOri(n)
               [] OTHER -> Formats[f]
=============================================================================
