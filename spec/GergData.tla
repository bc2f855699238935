---- MODULE GergData ----
(* Parameters of the GERG-2008 equation of state (Kunz and Wagner, 2012; AGA Report No. 8, Part 2), as decimal
   strings.  Components are numbered 1..21 in the order of module Components.
   This table belongs to the specification: it is not read from the implementation when a check runs. *)
RGERGs == "8.314472"
RSTARs == "8.31451"

(* molar masses, g/mol *)
MMGs ==
  <<"16.04246", "28.0134", "44.0095", "30.06904", "44.09562", "58.1222", "58.1222", "72.14878", "72.14878",
  "86.17536", "100.20194", "114.22852", "128.2551", "142.28168", "2.01588", "31.9988", "28.0101", "18.01528",
  "34.08088", "4.002602", "39.948">>

(* critical densities, mol/l *)
DCs ==
  <<"10.139342719", "11.1839", "10.624978698", "6.87085454", "5.000043088", "3.86014294", "3.920016792", "3.271",
  "3.215577588", "2.705877875", "2.315324434", "2.056404127", "1.81", "1.64", "14.94", "13.63", "10.85",
  "17.87371609", "10.19", "17.399", "13.407429659">>

(* critical temperatures, K *)
TCs ==
  <<"190.564", "126.192", "304.1282", "305.322", "369.825", "407.817", "425.125", "460.35", "469.7", "507.82",
  "540.13", "569.32", "594.55", "617.7", "33.19", "154.595", "132.86", "647.096", "373.1", "5.1953", "150.687">>

(* number of polynomial terms *)
KPOL ==
  <<6, 6, 4, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 5, 6, 6, 7, 6, 4, 6>>

(* number of exponential terms *)
KEXP ==
  <<18, 18, 18, 18, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 9, 6, 6, 9, 6, 8, 6>>

(* polynomial terms of departure functions 1..10 *)
KPOLIJ ==
  <<2, 5, 2, 3, 2, 3, 4, 6, 6, 10>>

(* exponential terms of departure functions 1..10 *)
KEXPIJ ==
  <<10, 4, 7, 3, 4, 3, 0, 6, 6, 0>>

(* coefficients n_oi,k *)
NOIKs ==
  <<<<"0.57335704239162", "-1.676068752373", "0.23405291834916", "-0.21947376343441", "0.016369201404128",
  "0.01500440638928", "0.098990489492918", "0.58382770929055", "-0.7478686756039", "0.30033302857974",
  "0.20985543806568", "-0.018590151133061", "-0.15782558339049", "0.12716735220791", "-0.032019743894346",
  "-0.068049729364536", "0.024291412853736", "0.0051440451639444", "-0.019084949733532", "0.0055229677241291",
  "-0.0044197392976085", "0.040061416708429", "-0.033752085907575", "-0.0025127658213357">>, <<"0.59889711801201",
  "-1.6941557480731", "0.24579736191718", "-0.23722456755175", "0.017954918715141", "0.014592875720215",
  "0.10008065936206", "0.7315711538553", "-0.88372272336366", "0.31887660246708", "0.20766491728799",
  "-0.019379315454158", "-0.16936641554983", "0.13546846041701", "-0.033066712095307", "-0.060690817018557",
  "0.012797548292871", "0.0058743664107299", "-0.018451951971969", "0.0047226622042472", "-0.0052024079680599",
  "0.043563505956635", "-0.036251690750939", "-0.0028974026866543">>, <<"0.52646564804653", "-1.4995725042592",
  "0.27329786733782", "0.12949500022786", "0.15404088341841", "-0.58186950946814", "-0.18022494838296",
  "-0.095389904072812", "-0.0080486819317679", "-0.03554775127309", "-0.28079014882405", "-0.082435890081677",
  "0.010832427979006", "-0.0067073993161097", "-0.0046827907600524", "-0.028359911832177", "0.019500174744098",
  "-0.21609137507166", "0.43772794926972", "-0.22130790113593", "0.015190189957331", "-0.0153809489533">>,
  <<"0.63596780450714", "-1.7377981785459", "0.28914060926272", "-0.33714276845694", "0.022405964699561",
  "0.015715424886913", "0.11450634253745", "1.0612049379745", "-1.2855224439423", "0.39414630777652",
  "0.31390924682041", "-0.021592277117247", "-0.21723666564905", "-0.28999574439489", "0.4232117302573",
  "0.04643410025926", "-0.13138398329741", "0.011492850364368", "-0.033387688429909", "0.015183171583644",
  "-0.0047610805647657", "0.046917166277885", "-0.039401755804649", "-0.0032569956247611">>, <<"1.0403973107358",
  "-2.8318404081403", "0.84393809606294", "-0.076559591850023", "0.09469737305728", "0.00024796475497006",
  "0.2774376042287", "-0.043846000648377", "-0.2699106478435", "-0.06931341308986", "-0.029632145981653",
  "0.01404012675138">>, <<"1.04293315891", "-2.8184272548892", "0.8617623239785", "-0.10613619452487",
  "0.098615749302134", "0.00023948208682322", "0.3033000485695", "-0.041598156135099", "-0.29991937470058",
  "-0.080369342764109", "-0.029761373251151", "0.01305963030314">>, <<"1.0626277411455", "-2.862095182835",
  "0.88738233403777", "-0.12570581155345", "0.10286308708106", "0.00025358040602654", "0.32325200233982",
  "-0.037950761057432", "-0.32534802014452", "-0.079050969051011", "-0.020636720547775", "0.005705380933475">>,
  <<"1.0963", "-3.0402", "1.0317", "-0.1541", "0.11535", "0.00029809", "0.39571", "-0.045881", "-0.35804",
  "-0.10107", "-0.035484", "0.018156">>, <<"1.0968643098001", "-2.9988888298061", "0.99516886799212",
  "-0.16170708558539", "0.11334460072775", "0.00026760595150748", "0.40979881986931", "-0.040876423083075",
  "-0.38169482469447", "-0.10931956843993", "-0.03207322332799", "0.016877016216975">>, <<"1.0553238013661",
  "-2.6120615890629", "0.7661388296726", "-0.29770320622459", "0.11879907733358", "0.00027922861062617",
  "0.46347589844105", "0.011433196980297", "-0.48256968738131", "-0.093750558924659", "-0.0067273247155994",
  "-0.0051141583585428">>, <<"1.0543747645262", "-2.6500681506144", "0.81730047827543", "-0.30451391253428",
  "0.122538687108", "0.00027266472743928", "0.4986582568167", "-0.00071432815084176", "-0.5423689552545",
  "-0.13801821610756", "-0.0061595287380011", "0.00048602510393022">>, <<"1.0722544875633", "-2.4632951172003",
  "0.65386674054928", "-0.36324974085628", "0.1271326962676", "0.0003071357277793", "0.5265685698754",
  "0.019362862857653", "-0.58939426849155", "-0.14069963991934", "-0.0078966330500036", "0.0033036597968109">>,
  <<"1.1151", "-2.702", "0.83416", "-0.38828", "0.1376", "0.00028185", "0.62037", "0.015847", "-0.61726", "-0.15043",
  "-0.012982", "0.0044325">>, <<"1.0461", "-2.4807", "0.74372", "-0.52579", "0.15315", "0.00032865", "0.84178",
  "0.055424", "-0.73555", "-0.18507", "-0.020775", "0.012335">>, <<"5.3579928451252", "-6.2050252530595",
  "0.13830241327086", "-0.071397954896129", "0.015474053959733", "-0.14976806405771", "-0.026368723988451",
  "0.056681303156066", "-0.060063958030436", "-0.4504394202713", "0.424788402445", "-0.021997640827139",
  "-0.01049952137453", "-0.0028955902866816">>, <<"0.88878286369701", "-2.4879433312148", "0.59750190775886",
  "0.0096501817061881", "0.07197042871277", "0.00022337443000195", "0.18558686391474", "-0.03812936803576",
  "-0.15352245383006", "-0.026726814910919", "-0.025675298677127", "0.0095714302123668">>, <<"0.90554", "-2.4515",
  "0.53149", "0.024173", "0.072156", "0.00018818", "0.19405", "-0.043268", "-0.12778", "-0.027896", "-0.034154",
  "0.016329">>, <<"0.82728408749586", "-1.8602220416584", "-1.1199009613744", "0.15635753976056", "0.87375844859025",
  "-0.36674403715731", "0.053987893432436", "1.0957690214499", "0.053213037828563", "0.013050533930825",
  "-0.41079520434476", "0.1463744334412", "-0.055726838623719", "-0.0112017741438", "-0.0066062758068099",
  "0.0046918522004538">>, <<"0.87641", "-2.0367", "0.21634", "-0.050199", "0.066994", "0.00019076", "0.20227",
  "-0.0045348", "-0.2223", "-0.034714", "-0.014885", "0.0074154">>, <<"-0.45579024006737", "1.2516390754925",
  "-1.5438231650621", "0.020467489707221", "-0.34476212380781", "-0.020858459512787", "0.016227414711778",
  "-0.057471818200892", "0.019462416430715", "-0.03329568012302", "-0.010863577372367", "-0.022173365245954">>,
  <<"0.85095714803969", "-2.400322294348", "0.54127841476466", "0.016919770692538", "0.068825965019035",
  "0.00021428032815338", "0.17429895321992", "-0.033654495604194", "-0.13526799857691", "-0.016387350791552",
  "-0.024987666851475", "0.0088769204815709">>>>

(* density exponents c inside exp, of the pure fluid equations *)
COIK ==
  <<<<0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6>>, <<0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1,
  2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6>>, <<0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 5, 5, 5, 6, 6>>, <<0, 0,
  0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 6, 6, 6, 6>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0,
  0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>,
  <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3,
  3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2,
  2, 3, 3>>, <<0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 5>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0,
  0, 1, 1, 2, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 5, 5>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>,
  <<0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 3, 3>>, <<0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3>>>>

(* density exponents d, of the pure fluid equations *)
DOIK ==
  <<<<1, 1, 2, 2, 4, 4, 1, 1, 1, 2, 3, 6, 2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7>>, <<1, 1, 2, 2, 4, 4, 1, 1, 1, 2, 3, 6,
  2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7>>, <<1, 1, 2, 3, 3, 3, 4, 5, 6, 6, 1, 4, 1, 1, 3, 3, 4, 5, 5, 5, 5, 5>>, <<1, 1,
  2, 2, 4, 4, 1, 1, 1, 2, 3, 6, 2, 3, 3, 4, 4, 2, 3, 4, 5, 6, 6, 7>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1,
  1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>,
  <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3,
  4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1,
  4, 3, 4>>, <<1, 1, 2, 2, 4, 1, 5, 5, 5, 1, 1, 2, 5, 1>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 3,
  7, 2, 5, 1, 4, 3, 4>>, <<1, 1, 1, 2, 2, 3, 4, 1, 5, 5, 1, 2, 4, 4, 1, 1>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>,
  <<1, 1, 1, 4, 1, 3, 5, 5, 5, 2, 1, 2>>, <<1, 1, 1, 2, 3, 7, 2, 5, 1, 4, 3, 4>>>>

(* temperature exponents t, of the pure fluid equations *)
TOIKs ==
  <<<<"0.125", "1.125", "0.375", "1.125", "0.625", "1.5", "0.625", "2.625", "2.75", "2.125", "2.0", "1.75", "4.5",
  "4.75", "5.0", "4.0", "4.5", "7.5", "14.0", "11.5", "26.0", "28.0", "30.0", "16.0">>, <<"0.125", "1.125", "0.375",
  "1.125", "0.625", "1.5", "0.625", "2.625", "2.75", "2.125", "2.0", "1.75", "4.5", "4.75", "5.0", "4.0", "4.5",
  "7.5", "14.0", "11.5", "26.0", "28.0", "30.0", "16.0">>, <<"0.0", "1.25", "1.625", "0.375", "0.375", "1.375",
  "1.125", "1.375", "0.125", "1.625", "3.75", "3.5", "7.5", "8.0", "6.0", "16.0", "11.0", "24.0", "26.0", "28.0",
  "24.0", "26.0">>, <<"0.125", "1.125", "0.375", "1.125", "0.625", "1.5", "0.625", "2.625", "2.75", "2.125", "2.0",
  "1.75", "4.5", "4.75", "5.0", "4.0", "4.5", "7.5", "14.0", "11.5", "26.0", "28.0", "30.0", "16.0">>, <<"0.25",
  "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125",
  "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5",
  "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375",
  "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25",
  "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875",
  "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625",
  "1.75", "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75",
  "3.625", "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625",
  "3.625", "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625",
  "14.5", "12.0">>, <<"0.5", "0.625", "0.375", "0.625", "1.125", "2.625", "0.0", "0.25", "1.375", "4.0", "4.25",
  "5.0", "8.0", "8.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625",
  "14.5", "12.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5",
  "12.0">>, <<"0.5", "1.25", "1.875", "0.125", "1.5", "1.0", "0.75", "1.5", "0.625", "2.625", "5.0", "4.0", "4.5",
  "3.0", "4.0", "6.0">>, <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625",
  "14.5", "12.0">>, <<"0.0", "0.125", "0.75", "1.0", "0.75", "2.625", "0.125", "1.25", "2.0", "1.0", "4.5", "5.0">>,
  <<"0.25", "1.125", "1.5", "1.375", "0.25", "0.875", "0.625", "1.75", "3.625", "3.625", "14.5", "12.0">>>>

(* departure function exponents d *)
DIJK ==
  <<<<3, 4, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3>>, <<3, 3, 4, 4, 4, 1, 1, 1, 2>>, <<1, 4, 1, 2, 2, 2, 2, 2, 3>>, <<1, 2, 3,
  1, 2, 3>>, <<2, 3, 1, 1, 1, 2>>, <<2, 2, 3, 1, 2, 2>>, <<1, 3, 3, 4>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 1, 1, 2, 2, 3, 3, 4, 4, 4>>>>

(* departure function exponents t *)
TIJKs ==
  <<<<"0.65", "1.55", "3.1", "5.9", "7.05", "3.35", "1.2", "5.8", "2.7", "0.45", "0.55", "1.95">>, <<"1.85", "3.95",
  "0.0", "1.85", "3.85", "5.25", "3.85", "0.2", "6.5">>, <<"0.0", "1.85", "7.85", "5.4", "0.0", "0.75", "2.8",
  "4.45", "4.25">>, <<"2.6", "1.95", "0.0", "3.95", "7.95", "8.0">>, <<"1.85", "1.4", "3.2", "2.5", "8.0", "3.75">>,
  <<"0.0", "0.05", "0.0", "3.65", "4.9", "4.45">>, <<"2.0", "-1.0", "1.75", "1.4">>, <<"0", "0", "0", "0", "0", "0",
  "0", "0", "0", "0", "0", "0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"1.0", "1.55",
  "1.7", "0.25", "1.35", "0.0", "1.25", "0.0", "0.7", "5.4">>>>

(* departure function coefficients n *)
NIJKs ==
  <<<<"-8.0926050298746E-04", "-7.5381925080059E-04", "-0.041618768891219", "-0.23452173681569", "0.14003840584586",
  "0.063281744807738", "-0.034660425848809", "-0.23918747334251", "1.9855255066891E-03", "6.1777746171555",
  "-6.9575358271105", "1.0630185306388">>, <<"0.013746429958576", "-7.4425012129552E-03", "-4.5516600213685E-03",
  "-5.4546603350237E-03", "2.3682016824471E-03", "0.18007763721438", "-0.44773942932486", "0.0193273748882",
  "-0.30632197804624">>, <<"-9.8038985517335E-03", "4.2487270143005E-04", "-0.034800214576142", "-0.13333813013896",
  "-0.011993694974627", "0.069243379775168", "-0.31022508148249", "0.24495491753226", "0.22369816716981">>,
  <<"-0.10859387354942", "0.080228576727389", "-9.3303985115717E-03", "0.040989274005848", "-0.24338019772494",
  "0.23855347281124">>, <<"0.28661625028399", "-0.10919833861247", "-1.137403208227", "0.76580544237358",
  "4.2638000926819E-03", "0.17673538204534">>, <<"-0.47376518126608", "0.48961193461001", "-5.7011062090535E-03",
  "-0.1996682004132", "-0.69411103101723", "0.69226192739021">>, <<"-0.25157134971934", "-6.2203841111983E-03",
  "0.088850315184396", "-0.035592212573239">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"0",
  "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"2.5574776844118", "-7.9846357136353",
  "4.7859131465806", "-0.73265392369587", "1.3805471345312", "0.28349603476365", "-0.49087385940425",
  "-0.10291888921447", "0.11836314681968", "5.5527385721943E-05">>>>

(* departure function eta *)
ETAs ==
  <<<<"0.0", "0.0", "1.0", "1.0", "1.0", "0.875", "0.75", "0.5", "0.0", "0.0", "0.0", "0.0">>, <<"0.0", "0.0", "0.0",
  "0.0", "0.0", "0.25", "0.25", "0.0", "0.0">>, <<"0.0", "0.0", "1.0", "1.0", "0.25", "0.0", "0.0", "0.0", "0.0">>,
  <<"0.0", "0.0", "0.0", "1.0", "0.5", "0.0">>, <<"0.0", "0.0", "0.25", "0.25", "0.0", "0.0">>, <<"0.0", "0.0",
  "0.0", "1.0", "1.0", "0.875">>, <<"0.0", "0.0", "0.0", "0.0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0",
  "0", "0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "0.0", "0.0", "0.0", "0.0">>>>

(* departure function epsilon *)
EPSs ==
  <<<<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0",
  "0.0", "0.0", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5">>,
  <<"0.0", "0.0", "0.0", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0",
  "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0", "0.0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0",
  "0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "0.0", "0.0", "0.0">>>>

(* departure function beta *)
BETAs ==
  <<<<"0.0", "0.0", "1.0", "1.0", "1.0", "1.25", "1.5", "2.0", "3.0", "3.0", "3.0", "3.0">>, <<"0.0", "0.0", "0.0",
  "0.0", "0.0", "0.75", "1.0", "2.0", "3.0">>, <<"0.0", "0.0", "1.0", "1.0", "2.5", "3.0", "3.0", "3.0", "3.0">>,
  <<"0.0", "0.0", "0.0", "1.0", "2.0", "3.0">>, <<"0.0", "0.0", "0.75", "1.0", "2.0", "3.0">>, <<"0.0", "0.0", "0.0",
  "1.0", "1.0", "1.25">>, <<"0.0", "0.0", "0.0", "0.0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0",
  "0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "0.0", "0.0", "0.0">>>>

(* departure function gamma *)
GAMs ==
  <<<<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0",
  "0.0", "0.0", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5">>,
  <<"0.0", "0.0", "0.0", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.5", "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0",
  "0.5", "0.5", "0.5">>, <<"0.0", "0.0", "0.0", "0.0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0",
  "0">>, <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>, <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0",
  "0.0", "0.0", "0.0", "0.0">>>>

(* pairs with a departure function: i, j, number of the function, factor F_ij *)
DEPARTs ==
  <<<<1, 2, 3, "1.0">>, <<1, 3, 4, "1.0">>, <<1, 4, 1, "1.0">>, <<1, 5, 2, "1.0">>, <<1, 6, 10, "0.771035405688">>,
  <<1, 7, 10, "1.0">>, <<1, 15, 7, "1.0">>, <<2, 3, 5, "1.0">>, <<2, 4, 6, "1.0">>, <<4, 5, 10, "0.13042476515">>,
  <<4, 6, 10, "0.260632376098">>, <<4, 7, 10, "0.281570073085">>, <<5, 6, 10, "-0.0551609771024">>, <<5, 7, 10,
  "0.0312572600489">>, <<6, 7, 10, "-0.0551240293009">>>>

(* reducing parameters of every pair: i, j, beta_v, gamma_v, beta_T, gamma_T *)
REDs ==
  <<<<1, 2, "0.998721377", "1.013950311", "0.99809883", "0.979273013">>, <<1, 3, "0.999518072", "1.002806594",
  "1.02262449", "0.975665369">>, <<1, 4, "0.997547866", "1.006617867", "0.996336508", "1.049707697">>, <<1, 5,
  "1.00482707", "1.038470657", "0.989680305", "1.098655531">>, <<1, 6, "1.011240388", "1.054319053", "0.980315756",
  "1.161117729">>, <<1, 7, "0.979105972", "1.045375122", "0.99417491", "1.171607691">>, <<1, 8, "1.0", "1.343685343",
  "1.0", "1.188899743">>, <<1, 9, "0.94833012", "1.124508039", "0.992127525", "1.249173968">>, <<1, 10,
  "0.958015294", "1.052643846", "0.981844797", "1.330570181">>, <<1, 11, "0.962050831", "1.156655935", "0.977431529",
  "1.379850328">>, <<1, 12, "0.994740603", "1.116549372", "0.957473785", "1.449245409">>, <<1, 13, "1.002852287",
  "1.141895355", "0.947716769", "1.528532478">>, <<1, 14, "1.033086292", "1.146089637", "0.937777823",
  "1.568231489">>, <<1, 15, "1.0", "1.018702573", "1.0", "1.352643115">>, <<1, 16, "1.0", "1.0", "1.0", "0.95">>,
  <<1, 17, "0.997340772", "1.006102927", "0.987411732", "0.987473033">>, <<1, 18, "1.012783169", "1.585018334",
  "1.063333913", "0.775810513">>, <<1, 19, "1.012599087", "1.040161207", "1.011090031", "0.961155729">>, <<1, 20,
  "1.0", "0.881405683", "1.0", "3.159776855">>, <<1, 21, "1.034630259", "1.014678542", "0.990954281",
  "0.989843388">>, <<2, 3, "0.977794634", "1.047578256", "1.005894529", "1.107654104">>, <<2, 4, "0.978880168",
  "1.042352891", "1.007671428", "1.098650964">>, <<2, 5, "0.974424681", "1.081025408", "1.002677329",
  "1.201264026">>, <<2, 6, "0.98641583", "1.100576129", "0.99286813", "1.284462634">>, <<2, 7, "0.99608261",
  "1.146949309", "0.994515234", "1.304886838">>, <<2, 8, "1.0", "1.154135439", "1.0", "1.38177077">>, <<2, 9, "1.0",
  "1.078877166", "1.0", "1.419029041">>, <<2, 10, "1.0", "1.195952177", "1.0", "1.472607971">>, <<2, 11, "1.0",
  "1.40455409", "1.0", "1.520975334">>, <<2, 12, "1.0", "1.186067025", "1.0", "1.733280051">>, <<2, 13, "1.0",
  "1.100405929", "0.95637945", "1.749119996">>, <<2, 14, "1.0", "1.0", "0.957934447", "1.822157123">>, <<2, 15,
  "0.972532065", "0.970115357", "0.946134337", "1.175696583">>, <<2, 16, "0.99952177", "0.997082328", "0.997190589",
  "0.995157044">>, <<2, 17, "1.0", "1.008690943", "1.0", "0.993425388">>, <<2, 18, "1.0", "1.094749685", "1.0",
  "0.968808467">>, <<2, 19, "0.910394249", "1.256844157", "1.004692366", "0.9601742">>, <<2, 20, "0.969501055",
  "0.932629867", "0.692868765", "1.47183158">>, <<2, 21, "1.004166412", "1.002212182", "0.999069843",
  "0.990034831">>, <<3, 4, "1.002525718", "1.032876701", "1.013871147", "0.90094953">>, <<3, 5, "0.996898004",
  "1.047596298", "1.033620538", "0.908772477">>, <<3, 6, "1.076551882", "1.081909003", "1.023339824",
  "0.929982936">>, <<3, 7, "1.174760923", "1.222437324", "1.018171004", "0.911498231">>, <<3, 8, "1.060793104",
  "1.116793198", "1.019180957", "0.961218039">>, <<3, 9, "1.024311498", "1.068406078", "1.027000795",
  "0.979217302">>, <<3, 10, "1.0", "0.851343711", "1.0", "1.038675574">>, <<3, 11, "1.205469976", "1.164585914",
  "1.011806317", "1.046169823">>, <<3, 12, "1.026169373", "1.104043935", "1.02969078", "1.074455386">>, <<3, 13,
  "1.0", "0.973386152", "1.00768862", "1.140671202">>, <<3, 14, "1.000151132", "1.183394668", "1.02002879",
  "1.145512213">>, <<3, 15, "0.904142159", "1.15279255", "0.942320195", "1.782924792">>, <<3, 16, "1.0", "1.0",
  "1.0", "1.0">>, <<3, 17, "1.0", "1.0", "1.0", "1.0">>, <<3, 18, "0.949055959", "1.542328793", "0.997372205",
  "0.775453996">>, <<3, 19, "0.906630564", "1.024085837", "1.016034583", "0.92601888">>, <<3, 20, "0.846647561",
  "0.864141549", "0.76837763", "3.207456948">>, <<3, 21, "1.008392428", "1.029205465", "0.996512863",
  "1.050971635">>, <<4, 5, "0.997607277", "1.00303472", "0.996199694", "1.01473019">>, <<4, 6, "1.0", "1.006616886",
  "1.0", "1.033283811">>, <<4, 7, "0.999157205", "1.006179146", "0.999130554", "1.034832749">>, <<4, 8, "1.0",
  "1.045439935", "1.0", "1.021150247">>, <<4, 9, "0.993851009", "1.026085655", "0.998688946", "1.066665676">>, <<4,
  10, "1.0", "1.169701102", "1.0", "1.092177796">>, <<4, 11, "1.0", "1.057666085", "1.0", "1.134532014">>, <<4, 12,
  "1.007469726", "1.071917985", "0.984068272", "1.168636194">>, <<4, 13, "1.0", "1.14353473", "1.0", "1.05603303">>,
  <<4, 14, "0.995676258", "1.098361281", "0.970918061", "1.237191558">>, <<4, 15, "0.925367171", "1.10607204",
  "0.932969831", "1.902008495">>, <<4, 16, "1.0", "1.0", "1.0", "1.0">>, <<4, 17, "1.0", "1.201417898", "1.0",
  "1.069224728">>, <<4, 18, "1.0", "1.0", "1.0", "1.0">>, <<4, 19, "1.010817909", "1.030988277", "0.990197354",
  "0.90273666">>, <<4, 20, "1.0", "1.0", "1.0", "1.0">>, <<4, 21, "1.0", "1.0", "1.0", "1.0">>, <<5, 6,
  "0.999243146", "1.001156119", "0.998012298", "1.005250774">>, <<5, 7, "0.999795868", "1.003264179", "1.000310289",
  "1.007392782">>, <<5, 8, "1.040459289", "0.999432118", "0.994364425", "1.0032695">>, <<5, 9, "1.044919431",
  "1.019921513", "0.996484021", "1.008344412">>, <<5, 10, "1.0", "1.057872566", "1.0", "1.025657518">>, <<5, 11,
  "1.0", "1.079648053", "1.0", "1.050044169">>, <<5, 12, "1.0", "1.102764612", "1.0", "1.063694129">>, <<5, 13,
  "1.0", "1.199769134", "1.0", "1.109973833">>, <<5, 14, "0.984104227", "1.053040574", "0.985331233",
  "1.140905252">>, <<5, 15, "1.0", "1.07400611", "1.0", "2.308215191">>, <<5, 16, "1.0", "1.0", "1.0", "1.0">>, <<5,
  17, "1.0", "1.108143673", "1.0", "1.197564208">>, <<5, 18, "1.0", "1.011759763", "1.0", "0.600340961">>, <<5, 19,
  "0.936811219", "1.010593999", "0.992573556", "0.905829247">>, <<5, 20, "1.0", "1.0", "1.0", "1.0">>, <<5, 21,
  "1.0", "1.0", "1.0", "1.0">>, <<6, 7, "0.999120311", "1.00041444", "0.999922459", "1.001432824">>, <<6, 8, "1.0",
  "1.002284353", "1.0", "1.001835788">>, <<6, 9, "1.0", "1.002779804", "1.0", "1.002495889">>, <<6, 10, "1.0",
  "1.010493989", "1.0", "1.006018054">>, <<6, 11, "1.0", "1.021668316", "1.0", "1.00988576">>, <<6, 12, "1.0",
  "1.032807063", "1.0", "1.013945424">>, <<6, 13, "1.0", "1.047298475", "1.0", "1.017817492">>, <<6, 14, "1.0",
  "1.060243344", "1.0", "1.021624748">>, <<6, 15, "1.0", "1.147595688", "1.0", "1.895305393">>, <<6, 16, "1.0",
  "1.0", "1.0", "1.0">>, <<6, 17, "1.0", "1.087272232", "1.0", "1.161390082">>, <<6, 18, "1.0", "1.0", "1.0",
  "1.0">>, <<6, 19, "1.012994431", "0.988591117", "0.974550548", "0.937130844">>, <<6, 20, "1.0", "1.0", "1.0",
  "1.0">>, <<6, 21, "1.0", "1.0", "1.0", "1.0">>, <<7, 8, "1.0", "1.002728434", "1.0", "1.000792201">>, <<7, 9,
  "1.0", "1.01815965", "1.0", "1.002143640">>, <<7, 10, "1.0", "1.034995284", "1.0", "1.00915706">>, <<7, 11, "1.0",
  "1.019174227", "1.0", "1.021283378">>, <<7, 12, "1.0", "1.046905515", "1.0", "1.033180106">>, <<7, 13, "1.0",
  "1.049219137", "1.0", "1.014096448">>, <<7, 14, "0.976951968", "1.027845529", "0.993688386", "1.076466918">>, <<7,
  15, "1.0", "1.232939523", "1.0", "2.509259945">>, <<7, 16, "1.0", "1.0", "1.0", "1.0">>, <<7, 17, "1.0",
  "1.084740904", "1.0", "1.173916162">>, <<7, 18, "1.0", "1.223638763", "1.0", "0.615512682">>, <<7, 19,
  "0.908113163", "1.033366041", "0.985962886", "0.926156602">>, <<7, 20, "1.0", "1.0", "1.0", "1.0">>, <<7, 21,
  "1.0", "1.214638734", "1.0", "1.245039498">>, <<8, 9, "1.0", "1.000024335", "1.0", "1.000050537">>, <<8, 10, "1.0",
  "1.002995876", "1.0", "1.001204174">>, <<8, 11, "1.0", "1.009928206", "1.0", "1.003194615">>, <<8, 12, "1.0",
  "1.017880545", "1.0", "1.00564748">>, <<8, 13, "1.0", "1.028994325", "1.0", "1.008191499">>, <<8, 14, "1.0",
  "1.039372957", "1.0", "1.010825138">>, <<8, 15, "1.0", "1.184340443", "1.0", "1.996386669">>, <<8, 16, "1.0",
  "1.0", "1.0", "1.0">>, <<8, 17, "1.0", "1.116694577", "1.0", "1.199326059">>, <<8, 18, "1.0", "1.0", "1.0",
  "1.0">>, <<8, 19, "1.0", "0.835763343", "1.0", "0.982651529">>, <<8, 20, "1.0", "1.0", "1.0", "1.0">>, <<8, 21,
  "1.0", "1.0", "1.0", "1.0">>, <<9, 10, "1.0", "1.002480637", "1.0", "1.000761237">>, <<9, 11, "1.0", "1.008972412",
  "1.0", "1.002441051">>, <<9, 12, "1.0", "1.069223964", "1.0", "1.016422347">>, <<9, 13, "1.0", "1.034910633",
  "1.0", "1.103421755">>, <<9, 14, "1.0", "1.016370338", "1.0", "1.049035838">>, <<9, 15, "1.0", "1.188334783",
  "1.0", "2.013859174">>, <<9, 16, "1.0", "1.0", "1.0", "1.0">>, <<9, 17, "1.0", "1.119954454", "1.0",
  "1.206043295">>, <<9, 18, "1.0", "0.95667731", "1.0", "0.447666011">>, <<9, 19, "0.984613203", "1.076539234",
  "0.962006651", "0.959065662">>, <<9, 20, "1.0", "1.0", "1.0", "1.0">>, <<9, 21, "1.0", "1.0", "1.0", "1.0">>, <<10,
  11, "1.0", "1.001508227", "1.0", "0.999762786">>, <<10, 12, "1.0", "1.006268954", "1.0", "1.001633952">>, <<10, 13,
  "1.0", "1.02076168", "1.0", "1.055369591">>, <<10, 14, "1.001516371", "1.013511439", "0.99764101", "1.028939539">>,
  <<10, 15, "1.0", "1.243461678", "1.0", "3.021197546">>, <<10, 16, "1.0", "1.0", "1.0", "1.0">>, <<10, 17, "1.0",
  "1.155145836", "1.0", "1.233272781">>, <<10, 18, "1.0", "1.170217596", "1.0", "0.569681333">>, <<10, 19,
  "0.754473958", "1.339283552", "0.985891113", "0.956075596">>, <<10, 20, "1.0", "1.0", "1.0", "1.0">>, <<10, 21,
  "1.0", "1.0", "1.0", "1.0">>, <<11, 12, "1.0", "1.006767176", "1.0", "0.998793111">>, <<11, 13, "1.0",
  "1.001370076", "1.0", "1.001150096">>, <<11, 14, "1.0", "1.002972346", "1.0", "1.002229938">>, <<11, 15, "1.0",
  "1.159131722", "1.0", "3.169143057">>, <<11, 16, "1.0", "1.0", "1.0", "1.0">>, <<11, 17, "1.0", "1.190354273",
  "1.0", "1.256123503">>, <<11, 18, "1.0", "1.0", "1.0", "1.0">>, <<11, 19, "0.828967164", "1.087956749",
  "0.988937417", "1.013453092">>, <<11, 20, "1.0", "1.0", "1.0", "1.0">>, <<11, 21, "1.0", "1.0", "1.0", "1.0">>,
  <<12, 13, "1.0", "1.001357085", "1.0", "1.000235044">>, <<12, 14, "1.0", "1.002553544", "1.0", "1.007186267">>,
  <<12, 15, "1.0", "1.305249405", "1.0", "2.191555216">>, <<12, 16, "1.0", "1.0", "1.0", "1.0">>, <<12, 17, "1.0",
  "1.219206702", "1.0", "1.276565536">>, <<12, 18, "1.0", "0.599484191", "1.0", "0.662072469">>, <<12, 19, "1.0",
  "1.0", "1.0", "1.0">>, <<12, 20, "1.0", "1.0", "1.0", "1.0">>, <<12, 21, "1.0", "1.0", "1.0", "1.0">>, <<13, 14,
  "1.0", "1.00081052", "1.0", "1.000182392">>, <<13, 15, "1.0", "1.342647661", "1.0", "2.23435404">>, <<13, 16,
  "1.0", "1.0", "1.0", "1.0">>, <<13, 17, "1.0", "1.252151449", "1.0", "1.294070556">>, <<13, 18, "1.0", "1.0",
  "1.0", "1.0">>, <<13, 19, "1.0", "1.082905109", "1.0", "1.086557826">>, <<13, 20, "1.0", "1.0", "1.0", "1.0">>,
  <<13, 21, "1.0", "1.0", "1.0", "1.0">>, <<14, 15, "1.695358382", "1.120233729", "1.064818089", "3.786003724">>,
  <<14, 16, "1.0", "1.0", "1.0", "1.0">>, <<14, 17, "1.0", "0.87018496", "1.049594632", "1.803567587">>, <<14, 18,
  "1.0", "0.551405318", "0.897162268", "0.740416402">>, <<14, 19, "0.975187766", "1.171714677", "0.973091413",
  "1.103693489">>, <<14, 20, "1.0", "1.0", "1.0", "1.0">>, <<14, 21, "1.0", "1.0", "1.0", "1.0">>, <<15, 16, "1.0",
  "1.0", "1.0", "1.0">>, <<15, 17, "1.0", "1.121416201", "1.0", "1.377504607">>, <<15, 18, "1.0", "1.0", "1.0",
  "1.0">>, <<15, 19, "1.0", "1.0", "1.0", "1.0">>, <<15, 20, "1.0", "1.0", "1.0", "1.0">>, <<15, 21, "1.0", "1.0",
  "1.0", "1.0">>, <<16, 17, "1.0", "1.0", "1.0", "1.0">>, <<16, 18, "1.0", "1.143174289", "1.0", "0.964767932">>,
  <<16, 19, "1.0", "1.0", "1.0", "1.0">>, <<16, 20, "1.0", "1.0", "1.0", "1.0">>, <<16, 21, "0.999746847",
  "0.993907223", "1.000023103", "0.990430423">>, <<17, 18, "1.0", "1.0", "1.0", "1.0">>, <<17, 19, "0.795660392",
  "1.101731308", "1.025536736", "1.022749748">>, <<17, 20, "1.0", "1.0", "1.0", "1.0">>, <<17, 21, "1.0",
  "1.159720623", "1.0", "0.954215746">>, <<18, 19, "1.0", "1.014832832", "1.0", "0.940587083">>, <<18, 20, "1.0",
  "1.0", "1.0", "1.0">>, <<18, 21, "1.0", "1.038993495", "1.0", "1.070941866">>, <<19, 20, "1.0", "1.0", "1.0",
  "1.0">>, <<19, 21, "1.0", "1.0", "1.0", "1.0">>, <<20, 21, "1.0", "1.0", "1.0", "1.0">>>>

(* ideal gas coefficients n01..n07 *)
N0Gs ==
  <<<<"29.83843397", "-15999.69151", "4.00088", "0.76315", "0.0046", "8.744320", "-4.46921">>, <<"17.56770785",
  "-2801.729072", "3.50031", "0.137320", "-0.1466", "0.90066", "0.0">>, <<"20.65844696", "-4902.171516", "3.50002",
  "2.04452", "-1.06044", "2.03366", "0.01393">>, <<"36.73005938", "-23639.65301", "4.00263", "4.33939", "1.23722",
  "13.1974", "-6.01989">>, <<"44.70909619", "-31236.63551", "4.02939", "6.60569", "3.197", "19.1921", "-8.37267">>,
  <<"34.30180349", "-38525.50276", "4.06714", "8.97575", "5.25156", "25.1423", "16.1388">>, <<"36.53237783",
  "-38957.80933", "4.33944", "9.44893", "6.89406", "24.4618", "14.7824">>, <<"43.17218626", "-51198.30946", "4.0",
  "11.7618", "20.1101", "33.1688", "0.0">>, <<"42.67837089", "-45215.83", "4.0", "8.95043", "21.836", "33.4032",
  "0.0">>, <<"46.99717188", "-52746.83318", "4.0", "11.6977", "26.8142", "38.6164", "0.0">>, <<"52.07631631",
  "-57104.81056", "4.0", "13.7266", "30.4707", "43.5561", "0.0">>, <<"57.25830934", "-60546.76385", "4.0", "15.6865",
  "33.8029", "48.1731", "0.0">>, <<"62.09646901", "-66600.12837", "4.0", "18.0241", "38.1235", "53.3415", "0.0">>,
  <<"65.93909154", "-74131.45483", "4.0", "21.0069", "43.4931", "58.3657", "0.0">>, <<"13.07520288", "-5836.943696",
  "2.47906", "0.95806", "0.45444", "1.56039", "-1.3756">>, <<"16.8017173", "-2318.32269", "3.50146", "1.07558",
  "1.01334", "0.0", "0.0">>, <<"17.45786899", "-2635.244116", "3.50055", "1.02865", "0.00493", "0.0", "0.0">>,
  <<"21.57882705", "-7766.733078", "4.00392", "0.01059", "0.98763", "3.06904", "0.0">>, <<"21.5830944",
  "-6069.035869", "4.0", "3.11942", "1.00243", "0.0", "0.0">>, <<"10.04639507", "-745.375", "2.5", "0.0", "0.0",
  "0.0", "0.0">>, <<"10.04639507", "-745.375", "2.5", "0.0", "0.0", "0.0", "0.0">>>>

(* ideal gas characteristic temperatures th04..th07, K *)
TH0Gs ==
  <<<<"820.659", "178.41", "1062.82", "1090.53">>, <<"662.738", "680.562", "1740.06", "0.0">>, <<"919.306", "865.07",
  "483.553", "341.109">>, <<"559.314", "223.284", "1031.38", "1071.29">>, <<"479.856", "200.893", "955.312",
  "1027.29">>, <<"438.27", "198.018", "1905.02", "893.765">>, <<"468.27", "183.636", "1914.1", "903.185">>,
  <<"292.503", "910.237", "1919.37", "0.0">>, <<"178.67", "840.538", "1774.25", "0.0">>, <<"182.326", "859.207",
  "1826.59", "0.0">>, <<"169.789", "836.195", "1760.46", "0.0">>, <<"158.922", "815.064", "1693.07", "0.0">>,
  <<"156.854", "814.882", "1693.79", "0.0">>, <<"164.947", "836.264", "1750.24", "0.0">>, <<"228.734", "326.843",
  "1651.71", "1671.69">>, <<"2235.71", "1116.69", "0.0", "0.0">>, <<"1550.45", "704.525", "0.0", "0.0">>,
  <<"268.795", "1141.41", "2507.37", "0.0">>, <<"1833.63", "847.181", "0.0", "0.0">>, <<"0.0", "0.0", "0.0", "0.0">>,
  <<"0.0", "0.0", "0.0", "0.0">>>>

====
