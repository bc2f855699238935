---- MODULE DetailData ----
(* Parameters of the AGA8 DETAIL equation of state (AGA Report No. 8, Part 1, Third Edition, 2017), as decimal
   strings.  Components are numbered 1..21 in the order of module Components; terms 1..58 as in the report.
   This table belongs to the specification: it is not read from the implementation when a check runs. *)
RDETAILs == "8.31451"

(* molar masses, g/mol *)
MMIs ==
  <<"16.043", "28.0135", "44.01", "30.07", "44.097", "58.123", "58.123", "72.15", "72.15", "86.177", "100.204",
  "114.231", "128.258", "142.285", "2.0159", "31.9988", "28.01", "18.0153", "34.082", "4.0026", "39.948">>

(* coefficients a_n *)
ANs ==
  <<"0.1538326", "1.341953", "-2.998583", "-0.04831228", "0.3757965", "-1.589575", "-0.05358847", "0.88659463",
  "-0.71023704", "-1.471722", "1.32185035", "-0.78665925", "0.00000000229129", "0.1576724", "-0.4363864",
  "-0.04408159", "-0.003433888", "0.03205905", "0.02487355", "0.07332279", "-0.001600573", "0.6424706", "-0.4162601",
  "-0.06689957", "0.2791795", "-0.6966051", "-0.002860589", "-0.008098836", "3.150547", "0.007224479", "-0.7057529",
  "0.5349792", "-0.07931491", "-1.418465", "-5.99905E-17", "0.1058402", "0.03431729", "-0.007022847", "0.02495587",
  "0.04296818", "0.7465453", "-0.2919613", "7.294616", "-9.936757", "-0.005399808", "-0.2432567", "0.04987016",
  "0.003733797", "1.874951", "0.002168144", "-0.6587164", "0.000205518", "0.009776195", "-0.02048708", "0.01557322",
  "0.006862415", "-0.001226752", "0.002850908">>

(* density exponents b_n *)
BN ==
  <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4,
  4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 6, 6, 7, 7, 8, 8, 8, 9, 9>>

(* exponents k_n in exp(-c_n D^k_n) *)
KN ==
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 2, 2, 2, 4, 4, 0, 0, 2, 2, 2, 4, 4, 4, 4, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 0,
  0, 2, 2, 2, 4, 4, 0, 2, 2, 4, 4, 0, 2, 0, 2, 1, 2, 2, 2, 2>>

(* temperature exponents u_n *)
UNs ==
  <<"0.0", "0.5", "1.0", "3.5", "-0.5", "4.5", "0.5", "7.5", "9.5", "6.0", "12.0", "12.5", "-6.0", "2.0", "3.0",
  "2.0", "2.0", "11.0", "-0.5", "0.5", "0.0", "4.0", "6.0", "21.0", "23.0", "22.0", "-1.0", "-0.5", "7.0", "-1.0",
  "6.0", "4.0", "1.0", "9.0", "-13.0", "21.0", "8.0", "-0.5", "0.0", "2.0", "7.0", "9.0", "22.0", "23.0", "1.0",
  "9.0", "3.0", "8.0", "23.0", "1.5", "5.0", "-0.5", "4.0", "7.0", "3.0", "0.0", "1.0", "0.0">>

(* orientation flag g_n *)
GN ==
  <<0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0>>

(* quadrupole flag q_n *)
QN ==
  <<0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0,
  0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1>>

(* high temperature flag f_n *)
FN ==
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

(* dipole flag s_n *)
SN ==
  <<0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

(* association flag w_n *)
WN ==
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

(* energy parameters E_i *)
EIs ==
  <<"151.3183", "99.73778", "241.9606", "244.1667", "298.1183", "324.0689", "337.6389", "365.5999", "370.6823",
  "402.636293", "427.72263", "450.325022", "470.840891", "489.558373", "26.95794", "122.7667", "105.5348",
  "514.0156", "296.355", "2.610111", "119.6299">>

(* size parameters K_i *)
KIs ==
  <<"0.4619255", "0.4479153", "0.4557489", "0.5279209", "0.583749", "0.6406937", "0.6341423", "0.6738577",
  "0.6798307", "0.7175118", "0.7525189", "0.784955", "0.8152731", "0.8437826", "0.3514916", "0.4186954", "0.4533894",
  "0.3825868", "0.4618263", "0.3589888", "0.4216551">>

(* orientation parameters G_i *)
GIs ==
  <<"0.0", "0.027815", "0.189065", "0.0793", "0.141239", "0.256692", "0.281835", "0.332267", "0.366911", "0.289731",
  "0.337542", "0.383381", "0.427354", "0.469659", "0.034369", "0.021", "0.038953", "0.3325", "0.0885", "0.0", "0.0">>

(* quadrupole parameters Q_i *)
QIs ==
  <<"0.0", "0.0", "0.69", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "1.06775", "0.633276", "0.0", "0.0">>

(* high temperature parameters F_i *)
FHis ==
  <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "1.0", "0.0",
  "0.0", "0.0", "0.0", "0.0", "0.0">>

(* dipole parameters S_i *)
SIs ==
  <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "1.5822", "0.39", "0.0", "0.0">>

(* association parameters W_i *)
WIs ==
  <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "1.0", "0.0", "0.0", "0.0">>

(* binary energy parameters E*_ij, pairs with a value other than 1 *)
EIJs ==
  <<<<1, 2, "0.97164">>, <<1, 3, "0.960644">>, <<1, 5, "0.994635">>, <<1, 6, "1.01953">>, <<1, 7, "0.989844">>, <<1,
  8, "1.00235">>, <<1, 9, "0.999268">>, <<1, 10, "1.107274">>, <<1, 11, "0.88088">>, <<1, 12, "0.880973">>, <<1, 13,
  "0.881067">>, <<1, 14, "0.881161">>, <<1, 15, "1.17052">>, <<1, 17, "0.990126">>, <<1, 18, "0.708218">>, <<1, 19,
  "0.931484">>, <<2, 3, "1.02274">>, <<2, 4, "0.97012">>, <<2, 5, "0.945939">>, <<2, 6, "0.946914">>, <<2, 7,
  "0.973384">>, <<2, 8, "0.95934">>, <<2, 9, "0.94552">>, <<2, 15, "1.08632">>, <<2, 16, "1.021">>, <<2, 17,
  "1.00571">>, <<2, 18, "0.746954">>, <<2, 19, "0.902271">>, <<3, 4, "0.925053">>, <<3, 5, "0.960237">>, <<3, 6,
  "0.906849">>, <<3, 7, "0.897362">>, <<3, 8, "0.726255">>, <<3, 9, "0.859764">>, <<3, 10, "0.855134">>, <<3, 11,
  "0.831229">>, <<3, 12, "0.80831">>, <<3, 13, "0.786323">>, <<3, 14, "0.765171">>, <<3, 15, "1.28179">>, <<3, 17,
  "1.5">>, <<3, 18, "0.849408">>, <<3, 19, "0.955052">>, <<4, 5, "1.02256">>, <<4, 7, "1.01306">>, <<4, 9,
  "1.00532">>, <<4, 15, "1.16446">>, <<4, 18, "0.693168">>, <<4, 19, "0.946871">>, <<5, 7, "1.0049">>, <<5, 15,
  "1.034787">>, <<6, 15, "1.3">>, <<7, 15, "1.3">>, <<10, 19, "1.008692">>, <<11, 19, "1.010126">>, <<12, 19,
  "1.011501">>, <<13, 19, "1.012821">>, <<14, 19, "1.014089">>, <<15, 17, "1.1">>>>

(* binary parameters U_ij, pairs with a value other than 1 *)
UIJs ==
  <<<<1, 2, "0.886106">>, <<1, 3, "0.963827">>, <<1, 5, "0.990877">>, <<1, 7, "0.992291">>, <<1, 9, "1.00367">>, <<1,
  10, "1.302576">>, <<1, 11, "1.191904">>, <<1, 12, "1.205769">>, <<1, 13, "1.219634">>, <<1, 14, "1.233498">>, <<1,
  15, "1.15639">>, <<1, 19, "0.736833">>, <<2, 3, "0.835058">>, <<2, 4, "0.816431">>, <<2, 5, "0.915502">>, <<2, 7,
  "0.993556">>, <<2, 15, "0.408838">>, <<2, 19, "0.993476">>, <<3, 4, "0.96987">>, <<3, 10, "1.066638">>, <<3, 11,
  "1.077634">>, <<3, 12, "1.088178">>, <<3, 13, "1.098291">>, <<3, 14, "1.108021">>, <<3, 17, "0.9">>, <<3, 19,
  "1.04529">>, <<4, 5, "1.065173">>, <<4, 6, "1.25">>, <<4, 7, "1.25">>, <<4, 8, "1.25">>, <<4, 9, "1.25">>, <<4, 15,
  "1.61666">>, <<4, 19, "0.971926">>, <<10, 19, "1.028973">>, <<11, 19, "1.033754">>, <<12, 19, "1.038338">>, <<13,
  19, "1.042735">>, <<14, 19, "1.046966">>>>

(* binary size parameters K_ij, pairs with a value other than 1 *)
KIJs ==
  <<<<1, 2, "1.00363">>, <<1, 3, "0.995933">>, <<1, 5, "1.007619">>, <<1, 7, "0.997596">>, <<1, 9, "1.002529">>, <<1,
  10, "0.982962">>, <<1, 11, "0.983565">>, <<1, 12, "0.982707">>, <<1, 13, "0.981849">>, <<1, 14, "0.980991">>, <<1,
  15, "1.02326">>, <<1, 19, "1.00008">>, <<2, 3, "0.982361">>, <<2, 4, "1.00796">>, <<2, 15, "1.03227">>, <<2, 19,
  "0.942596">>, <<3, 4, "1.00851">>, <<3, 10, "0.910183">>, <<3, 11, "0.895362">>, <<3, 12, "0.881152">>, <<3, 13,
  "0.86752">>, <<3, 14, "0.854406">>, <<3, 19, "1.00779">>, <<4, 5, "0.986893">>, <<4, 15, "1.02034">>, <<4, 19,
  "0.999969">>, <<10, 19, "0.96813">>, <<11, 19, "0.96287">>, <<12, 19, "0.957828">>, <<13, 19, "0.952441">>, <<14,
  19, "0.948338">>>>

(* binary orientation parameters G*_ij, pairs with a value other than 1 *)
GIJs ==
  <<<<1, 3, "0.807653">>, <<1, 15, "1.95731">>, <<2, 3, "0.982746">>, <<3, 4, "0.370296">>, <<3, 18, "1.67309">>>>

(* ideal gas coefficients: n01, n02 (integration constants), n03, n04..n07 *)
N0Is ==
  <<<<"29.83843397", "-15999.69151", "4.00088", "0.76315", "0.0046", "8.74432", "-4.46921">>, <<"17.56770785",
  "-2801.729072", "3.50031", "0.13732", "-0.1466", "0.90066", "0.0">>, <<"20.65844696", "-4902.171516", "3.50002",
  "2.04452", "-1.06044", "2.03366", "0.01393">>, <<"36.73005938", "-23639.65301", "4.00263", "4.33939", "1.23722",
  "13.1974", "-6.01989">>, <<"44.70909619", "-31236.63551", "4.02939", "6.60569", "3.197", "19.1921", "-8.37267">>,
  <<"34.30180349", "-38525.50276", "4.06714", "8.97575", "5.25156", "25.1423", "16.1388">>, <<"36.53237783",
  "-38957.80933", "4.33944", "9.44893", "6.89406", "24.4618", "14.7824">>, <<"43.17218626", "-51198.30946", "4.0",
  "11.7618", "20.1101", "33.1688", "0.0">>, <<"42.67837089", "-45215.83", "4.0", "8.95043", "21.836", "33.4032",
  "0.0">>, <<"46.99717188", "-52746.83318", "4.0", "11.6977", "26.8142", "38.6164", "0.0">>, <<"52.07631631",
  "-57104.81056", "4.0", "13.7266", "30.4707", "43.5561", "0.0">>, <<"57.25830934", "-60546.76385", "4.0", "15.6865",
  "33.8029", "48.1731", "0.0">>, <<"62.09646901", "-66600.12837", "4.0", "18.0241", "38.1235", "53.3415", "0.0">>,
  <<"65.93909154", "-74131.45483", "4.0", "21.0069", "43.4931", "58.3657", "0.0">>, <<"13.07520288", "-5836.943696",
  "2.47906", "0.95806", "0.45444", "1.56039", "-1.3756">>, <<"16.8017173", "-2318.32269", "3.50146", "1.07558",
  "1.01334", "0.0", "0.0">>, <<"17.45786899", "-2635.244116", "3.50055", "1.02865", "0.00493", "0.0", "0.0">>,
  <<"21.57882705", "-7766.733078", "4.00392", "0.01059", "0.98763", "3.06904", "0.0">>, <<"21.5830944",
  "-6069.035869", "4.0", "3.11942", "1.00243", "0.0", "0.0">>, <<"10.04639507", "-745.375", "2.5", "0.0", "0.0",
  "0.0", "0.0">>, <<"10.04639507", "-745.375", "2.5", "0.0", "0.0", "0.0", "0.0">>>>

(* ideal gas characteristic temperatures th04..th07, K *)
TH0Is ==
  <<<<"820.659", "178.41", "1062.82", "1090.53">>, <<"662.738", "680.562", "1740.06", "0.0">>, <<"919.306", "865.07",
  "483.553", "341.109">>, <<"559.314", "223.284", "1031.38", "1071.29">>, <<"479.856", "200.893", "955.312",
  "1027.29">>, <<"438.27", "198.018", "1905.02", "893.765">>, <<"468.27", "183.636", "1914.1", "903.185">>,
  <<"292.503", "910.237", "1919.37", "0.0">>, <<"178.67", "840.538", "1774.25", "0.0">>, <<"182.326", "859.207",
  "1826.59", "0.0">>, <<"169.789", "836.195", "1760.46", "0.0">>, <<"158.922", "815.064", "1693.07", "0.0">>,
  <<"156.854", "814.882", "1693.79", "0.0">>, <<"164.947", "836.264", "1750.24", "0.0">>, <<"228.734", "326.843",
  "1651.71", "1671.69">>, <<"2235.71", "1116.69", "0.0", "0.0">>, <<"1550.45", "704.525", "0.0", "0.0">>,
  <<"268.795", "1141.41", "2507.37", "0.0">>, <<"1833.63", "847.181", "0.0", "0.0">>, <<"0.0", "0.0", "0.0", "0.0">>,
  <<"0.0", "0.0", "0.0", "0.0">>>>

====
