---------------------------- MODULE RecordTypes ----------------------------
(* The fields each kind of record is compared by.                             *)
EXTENDS Integers, Sequences
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Num(i) == IF i < 10 THEN Dig[i + 1] ELSE Dig[(i \div 10) + 1] \o Dig[(i % 10) + 1]
Arr(n, k) == [i \in 1..k |-> n \o "." \o Num(i - 1)]
Exterior == <<"x0", "y0", "z0", "omega", "phi", "kappa">> \o Arr("dm", 9)
Interior == <<"xh", "yh", "cc">>
Glass == <<"vec_x", "vec_y", "vec_z">>
Added == <<"k1", "k2", "k3", "p1", "p2", "scx", "she">>
\* multimedia parameters are compared by their indices, thickness of the first layer and the number of layers
Media == <<"nlay", "n1", "n2.0", "d.0", "n3">>
Types == [target |-> <<"pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr">>,
          corres |-> <<"nr">> \o Arr("p", 4),
          path |-> Arr("x", 3) \o <<"prev", "next", "prio", "finaldecis", "inlist">> \o Arr("decis", 80) \o Arr("linkdecis", 80),
          exterior |-> Exterior, interior |-> Interior, glass |-> Glass, added |-> Added,
          calib |-> Exterior \o Interior \o Glass \o Added,
          sequence |-> <<"num_cams", "first", "last">> \o Arr("img", 4),
          track |-> <<"dacc", "dangle", "dvxmax", "dvxmin", "dvymax", "dvymin", "dvzmax", "dvzmin", "dsumg", "dn", "dnx", "dny", "add">>,
          volume |-> Arr("X_lay", 2) \o Arr("Zmin_lay", 2) \o Arr("Zmax_lay", 2) \o <<"cn", "cnx", "cny", "csumg", "eps0", "corrmin">>,
          control |-> <<"num_cams">> \o Arr("img", 4) \o Arr("cal", 4) \o <<"hp_flag", "allCam_flag", "tiff_flag", "imx", "imy", "pix_x", "pix_y", "chfield">> \o Media,
          targpar |-> <<"discont">> \o Arr("gvthres", 4) \o <<"nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz">>,
          media |-> Media]
=============================================================================
