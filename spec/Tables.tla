------------------------------- MODULE Tables -------------------------------
EXTENDS Integers
(* Constants of the standards.  Generated by tools/gentables.py; do not edit. *)
K256 == <<
  1116352408,1899447441,-1245643825,-373957723,961987163,1508970993,-1841331548,-1424204075,
  -670586216,310598401,607225278,1426881987,1925078388,-2132889090,-1680079193,-1046744716,
  -459576895,-272742522,264347078,604807628,770255983,1249150122,1555081692,1996064986,
  -1740746414,-1473132947,-1341970488,-1084653625,-958395405,-710438585,113926993,338241895,
  666307205,773529912,1294757372,1396182291,1695183700,1986661051,-2117940946,-1838011259,
  -1564481375,-1474664885,-1035236496,-949202525,-778901479,-694614492,-200395387,275423344,
  430227734,506948616,659060556,883997877,958139571,1322822218,1537002063,1747873779,
  1955562222,2024104815,-2067236844,-1933114872,-1866530822,-1538233109,-1090935817,-965641998>>

H256 == <<
  1779033703,-1150833019,1013904242,-1521486534,1359893119,-1694144372,528734635,1541459225>>

H224 == <<
  -1056596264,914150663,812702999,-150054599,-4191439,1750603025,1694076839,-1090891868>>

K512 == <<
  <<1116352408,-685199838>>,<<1899447441,602891725>>,<<-1245643825,-330482897>>,<<-373957723,-2121671748>>,
  <<961987163,-213338824>>,<<1508970993,-1241133031>>,<<-1841331548,-1357295717>>,<<-1424204075,-630357736>>,
  <<-670586216,-1560083902>>,<<310598401,1164996542>>,<<607225278,1323610764>>,<<1426881987,-704662302>>,
  <<1925078388,-226784913>>,<<-2132889090,991336113>>,<<-1680079193,633803317>>,<<-1046744716,-815192428>>,
  <<-459576895,-1628353838>>,<<-272742522,944711139>>,<<264347078,-1953704523>>,<<604807628,2007800933>>,
  <<770255983,1495990901>>,<<1249150122,1856431235>>,<<1555081692,-1119749164>>,<<1996064986,-2096016459>>,
  <<-1740746414,-295247957>>,<<-1473132947,766784016>>,<<-1341970488,-1728372417>>,<<-1084653625,-1091629340>>,
  <<-958395405,1034457026>>,<<-710438585,-1828018395>>,<<113926993,-536640913>>,<<338241895,168717936>>,
  <<666307205,1188179964>>,<<773529912,1546045734>>,<<1294757372,1522805485>>,<<1396182291,-1651133473>>,
  <<1695183700,-1951439906>>,<<1986661051,1014477480>>,<<-2117940946,1206759142>>,<<-1838011259,344077627>>,
  <<-1564481375,1290863460>>,<<-1474664885,-1136513023>>,<<-1035236496,-789014639>>,<<-949202525,106217008>>,
  <<-778901479,-688958952>>,<<-694614492,1432725776>>,<<-200395387,1467031594>>,<<275423344,851169720>>,
  <<430227734,-1194143544>>,<<506948616,1363258195>>,<<659060556,-544281703>>,<<883997877,-509917016>>,
  <<958139571,-976659869>>,<<1322822218,-482243893>>,<<1537002063,2003034995>>,<<1747873779,-692930397>>,
  <<1955562222,1575990012>>,<<2024104815,1125592928>>,<<-2067236844,-1578062990>>,<<-1933114872,442776044>>,
  <<-1866530822,593698344>>,<<-1538233109,-561857047>>,<<-1090935817,-1295615723>>,<<-965641998,-479046869>>,
  <<-903397682,-366583396>>,<<-779700025,566280711>>,<<-354779690,-840897762>>,<<-176337025,-294727304>>,
  <<116418474,1914138554>>,<<174292421,-1563912026>>,<<289380356,-1090974290>>,<<460393269,320620315>>,
  <<685471733,587496836>>,<<852142971,1086792851>>,<<1017036298,365543100>>,<<1126000580,-1676669620>>,
  <<1288033470,-885112138>>,<<1501505948,-60457430>>,<<1607167915,987167468>>,<<1816402316,1246189591>>>>

H512 == <<
  <<1779033703,-205731576>>,<<-1150833019,-2067093701>>,<<1013904242,-23791573>>,<<-1521486534,1595750129>>,
  <<1359893119,-1377402159>>,<<-1694144372,725511199>>,<<528734635,-79577749>>,<<1541459225,327033209>>>>

H384 == <<
  <<-876896931,-1056596264>>,<<1654270250,914150663>>,<<-1856437926,812702999>>,<<355462360,-150054599>>,
  <<1731405415,-4191439>>,<<-1900787065,1750603025>>,<<-619958771,1694076839>>,<<1203062813,-1090891868>>>>

TMD5 == <<
  -680876936,-389564586,606105819,-1044525330,-176418897,1200080426,-1473231341,-45705983,
  1770035416,-1958414417,-42063,-1990404162,1804603682,-40341101,-1502002290,1236535329,
  -165796510,-1069501632,643717713,-373897302,-701558691,38016083,-660478335,-405537848,
  568446438,-1019803690,-187363961,1163531501,-1444681467,-51403784,1735328473,-1926607734,
  -378558,-2022574463,1839030562,-35309556,-1530992060,1272893353,-155497632,-1094730640,
  681279174,-358537222,-722521979,76029189,-640364487,-421815835,530742520,-995338651,
  -198630844,1126891415,-1416354905,-57434055,1700485571,-1894986606,-1051523,-2054922799,
  1873313359,-30611744,-1560198380,1309151649,-145523070,-1120210379,718787259,-343485551>>

BFP == <<
  608135816,-2052912941,320440878,57701188,-1542899678,698298832,137296536,-330404727,
  1160258022,953160567,-1101764913,887688300,-1062458953,-914599715,1065670069,-1253635817,
  -1843997223,-1988494565>>

BFS == <<
  -785314906,-1730169428,805139163,-803545161,-1193168915,1780907670,-1166241723,-248741991,
  614570311,-1282315017,134345442,-2054226922,1667834072,1901547113,-1537671517,-191677058,
  227898511,1921955416,1904987480,-2112533778,2069144605,-1034266187,-1674521287,720527379,
  -976113629,677414384,-901678824,-1193592593,-1904616272,1614419982,1822297739,-1340175810,
  -686458943,-1120842969,2024746970,1432378464,-430627341,-1437226092,1464375394,1676153920,
  1439316330,715854006,-1261675468,289532110,-1588296017,2087905683,-1276242927,1668267050,
  732546397,1947742710,-832815594,-1685613794,-1344882125,1814351708,2050118529,680887927,
  999245976,1800124847,-994056165,1713906067,1641548236,-81679983,1216130144,1575780402,
  -276538019,-377129551,-601480446,-345695352,596196993,-745100091,258830323,-2081144263,
  772490370,-1534844924,1774776394,-1642095778,566650946,-152474470,1728879713,-1412200208,
  1783734482,-665571480,-1777359064,-1420741725,1861159788,326777828,-1170476976,2130389656,
  -1578015459,967770486,1724537150,-2109534584,-1930525159,1164943284,2105845187,998989502,
  -529566248,-2050940813,1075463327,1455516326,1322494562,910128902,469688178,1117454909,
  936433444,-804646328,-619713837,1240580251,122909385,-2137449605,634681816,-152510729,
  -469872614,-1233564613,-1754472259,79693498,-1045868618,1084186820,1583128258,426386531,
  1761308591,1047286709,322548459,995290223,1845252383,-1691314900,-863943356,-1352745719,
  -1092366332,-567063811,1712269319,422464435,-1060394921,1170764815,-771006663,-1177289765,
  1434042557,442511882,-694091578,1076654713,1738483198,-81812532,-1901729288,-617471240,
  1014306527,-43947243,793779912,-1392160085,842905082,-48003232,1395751752,1040244610,
  -1638115397,-898659168,445077038,-552113701,-717051658,679411651,-1402522938,-1940957837,
  1767581616,-1144366904,-503340195,-1192226400,284835224,-48135240,1258075500,768725851,
  -1705778055,-1225243291,-762426948,1274779536,-505548070,-1530167757,1660621633,-823867672,
  -283063590,913787905,-797008130,737222580,-1780753843,-1366257256,-357724559,1804850592,
  -795946544,-1345903136,-1908647121,-1904896841,-1879645445,-233690268,-2004305902,-1878134756,
  1336762016,1754252060,-774901359,-1280786003,791618072,-1106372745,-361419266,-1962795103,
  -442446833,-1250986776,413987798,-829824359,-1264037920,-49028937,2093235073,-760370983,
  375366246,-2137688315,-1815317740,555357303,-424861595,2008414854,-950779147,-73583153,
  -338841844,2067696032,-700376109,-1373733303,2428461,544322398,577241275,1471733935,
  610547355,-267798242,1432588573,1507829418,2025931657,-648391809,545086370,48609733,
  -2094660746,1653985193,298326376,1316178497,-1287180854,2064951626,458293330,-1705826027,
  -703637697,-1130641692,727753846,-2115603456,146436021,1461446943,-224990101,705550613,
  -1235000031,-407242314,-13368018,-981117340,1404054877,-1449160799,146425753,1854211946,
  1266315497,-1246549692,-613086930,-1004984797,-1385257296,1235738493,-1662099272,-1880247706,
  -324367247,1771706367,1449415276,-1028546847,422970021,1963543593,-1604775104,-468174274,
  1062508698,1531092325,1804592342,-1711849514,-1580033017,-269995787,1294809318,-265986623,
  1289560198,-2072974554,1669523910,35572830,157838143,1052438473,1016535060,1802137761,
  1753167236,1386275462,-1214491899,-1437595849,1040679964,2145300060,-1904392980,1461121720,
  -1338320329,-263189491,-266592508,33600511,-1374882534,1018524850,629373528,-603381315,
  -779021319,2091462646,-1808644237,586499841,988145025,935516892,-927631820,-1695294041,
  -1455136442,265290510,-322386114,-1535828415,-499593831,1005194799,847297441,406762289,
  1314163512,1332590856,1866599683,-167115585,750260880,613907577,1450815602,-1129346641,
  -560302305,-644675568,-1282691566,-590397650,1427272223,778793252,1343938022,-1618686585,
  2052605720,1946737175,-1130390852,-380928628,-327488454,-612033030,1661551462,-1000029230,
  -283371449,840292616,-582796489,616741398,312560963,711312465,1351876610,322626781,
  1910503582,271666773,-2119403562,1594956187,70604529,-677132437,1007753275,1495573769,
  -225450259,-1745748998,-1631928532,504708206,-2031925904,-353800271,-2045878774,1514023603,
  1998579484,1312622330,694541497,-1712906993,-2143385130,1382467621,776784248,-1676627094,
  -971698502,-1797068168,-1510196141,503983604,-218673497,907881277,423175695,432175456,
  1378068232,-149744970,-340918674,-356311194,-474200683,-1501837181,-1317062703,26017576,
  -1020076561,-1100195163,1700274565,1756076034,-288447217,-617638597,720338349,1533947780,
  354530856,688349552,-321042571,1637815568,332179504,-345916010,53804574,-1442618417,
  -1250730864,1282449977,-711025141,-877994476,-288586052,1617046695,-1666491221,-1292663698,
  1686838959,431878346,-1608291911,1700445008,1080580658,1009431731,832498133,-1071531785,
  -1688990951,-2023776103,-1778935426,1648197032,-130578278,-1746719369,300782431,375919233,
  238389289,-941219882,-1763778655,2019080857,1475708069,455242339,-1685863425,448939670,
  -843904277,1395535956,-1881585436,1841049896,1491858159,885456874,-30872223,-293847949,
  1565136089,-396052509,1108368660,540939232,1173283510,-1549095958,-613658859,-87339056,
  -951913406,-278217803,1699691293,1103962373,-669091426,-2038084153,-464828566,1031889488,
  -815619598,1535977030,-58162272,-1043876189,2132092099,1774941330,1199868427,1452454533,
  157007616,-1390851939,342012276,595725824,1480756522,206960106,497939518,591360097,
  863170706,-1919713727,-698356495,1814182875,2094937945,-873565088,1082520231,-831049106,
  -1509457788,435703966,-386934699,1641649973,-1452693590,-989067582,1510255612,-2146710820,
  -1639679442,-1018874748,-36346107,236887753,-613164077,274041037,1734335097,-479771840,
  -976997275,1899903192,1026095262,-244449504,356393447,-1884275382,-421290197,-612127241,
  -381855128,-1803468553,-162781668,-1805047500,1091903735,1979897079,-1124832466,-727580568,
  -737663887,857797738,1136121015,1342202287,507115054,-1759230650,337727348,-1081374656,
  1301675037,-1766485585,1895095763,1721773893,-1078195732,62756741,2142006736,835421444,
  -1762973773,1442658625,-635090970,-1412822374,676362277,1392781812,170690266,-373920261,
  1759253602,-683120384,1745797284,664899054,1329594018,-393761396,-1249058810,2062866102,
  -1429332356,-751345684,-830954599,1080764994,553557557,-638351943,-298199125,991055499,
  499776247,1265440854,648242737,-354183246,980351604,-581221582,1749149687,-898096901,
  -83167922,-654396521,1161844396,-1169648345,1431517754,545492359,-26498633,-795437749,
  1437099964,-1592419752,-861329053,-1713251533,-1507177898,1060185593,1593081372,-1876348548,
  -34019326,69676912,-2135222948,86519011,-1782508216,-456757982,1220612927,-955283748,
  133810670,1090789135,1078426020,1569222167,845107691,-711212847,-222510705,1091646820,
  628848692,1613405280,-537335645,526609435,236106946,48312990,-1352249391,-892239595,
  1797494240,859738849,992217954,-289490654,-2051890674,-424014439,-562951028,765654824,
  -804095931,-1783130883,1685915746,-405998096,1414112111,-2021832454,-1013056217,-214004450,
  172450625,-1724973196,980381355,-185008841,-1475158944,-1578377736,-1726226100,-613520627,
  -964995824,1835478071,660984891,-590288892,-248967737,-872349789,-1254551662,1762651403,
  1719377915,-824476260,-1601057013,-652910941,-1156370552,1364962596,2073328063,1983633131,
  926494387,-871278215,-2144935273,-198299347,1749200295,-966120645,309677260,2016342300,
  1779581495,-1215147545,111262694,1274766160,443224088,298511866,1025883608,-488520759,
  1145181785,168956806,-653464466,-710153686,1689216846,-628709281,-1094719096,1692713982,
  -1648590761,-252198778,1618508792,1610833997,-771914938,-164094032,2001055236,-684262196,
  -2092799181,-266425487,-1333771897,1006657119,2006996926,-1108824540,1430667929,-1084739999,
  1314452623,-220332638,-193663176,-2021016126,1399257539,-927756684,-1267338667,1190975929,
  2062231137,-1960976508,-2073424263,-1856006686,1181637006,548689776,-1932175983,-922558900,
  -1190417183,-1149106736,296247880,1970579870,-1216407114,-525738999,1714227617,-1003338189,
  -396747006,166772364,1251581989,493813264,448347421,195405023,-1584991729,677966185,
  -591930749,1463355134,-1578971493,1338867538,1343315457,-1492745222,-1610435132,233230375,
  -1694987225,2000651841,-1017099258,1638401717,-266896856,-1057650976,6314154,819756386,
  300326615,590932579,1405279636,-1027467724,-1144263082,-1866680610,-335774303,-833020554,
  1862657033,1266418056,963775037,2089974820,-2031914401,1917689273,448879540,-744572676,
  -313240200,150775221,-667058989,1303187396,508620638,-1318983944,-1568336679,1817252668,
  1876281319,1457606340,908771278,-574175177,-677760460,-1838972398,1729034894,1080033504,
  976866871,-738527793,-1413318857,1522871579,1555064734,1336096578,-746444992,-1715692610,
  -720269667,-1089506539,-701686658,-956251013,-1215554709,564236357,-1301368386,1781952180,
  1464380207,-1131123079,-962365742,1699332808,1393555694,1183702653,-713881059,1288719814,
  691649499,-1447410096,-1399511320,-1101077756,-1577396752,1781354906,1676643554,-1702433246,
  -1064713544,1126444790,-1524759638,-1661808476,-2084544070,-1679201715,-1880812208,-1167828010,
  673620729,-1489356063,1269405062,-279616791,-953159725,-145557542,1057255273,2012875353,
  -2132498155,-2018474495,-1693849939,993977747,-376373926,-1640704105,753973209,36408145,
  -1764381638,25011837,-774947114,2088578344,530523599,-1376601957,1524020338,1518925132,
  -534139791,-535190042,1202760957,-309069157,-388774771,674977740,-120232407,2031300136,
  2019492241,-311074731,-141160892,-472686964,352677332,-1997247046,60907813,90501309,
  -1007968747,1016092578,-1759044884,-1455814870,457141659,509813237,-174299397,652014361,
  1966332200,-1319764491,55981186,-1967506245,676427537,-1039476232,-1412673177,-861040033,
  1307055953,942726286,933058658,-1826555503,-361066302,-79791154,1361170020,2001714738,
  -1464409218,-1020707514,1222529897,1679025792,-1565652976,-580013532,1770335741,151462246,
  -1281735158,1682292957,1483529935,471910574,1539241949,458788160,-858652289,1807016891,
  -576558466,978976581,1043663428,-1129001515,1927990952,-94075717,-1922690386,-1086558393,
  -761535389,1412390302,-1362987237,-162634896,1947078029,-413461673,-126740879,-1353482915,
  1077988104,1320477388,886195818,18198404,-508558296,-1785185763,112762804,-831610808,
  1866414978,891333506,18488651,661792760,1628790961,-409780260,-1153795797,876946877,
  -1601685023,1372485963,791857591,-1608533303,-534984578,-1127755274,-822013501,-1578587449,
  445679433,-732971622,-790962485,-720709064,54117162,-963561881,-1913048708,-525259953,
  -140617289,1140177722,-220915201,668550556,-1080614356,367459370,261225585,-1684794075,
  -85617823,-826893077,-1029151655,314222801,-1228863650,-486184436,282218597,-888953790,
  -521376242,379116347,1285071038,846784868,-1625320142,-523005217,-744475605,-1989021154,
  453669953,1268987020,-977374944,-1015663912,-550133875,-1684459730,-435458233,266596637,
  -447948204,517658769,-832407089,-851542417,370717030,-47440635,-2070949179,-151313767,
  -182193321,-1506642397,-1817692879,1456262402,-1393524382,1517677493,1846949527,-1999473716,
  -560569710,-2118563376,1280348187,1908823572,-423180355,846861322,1172426758,-1007518822,
  -911584259,1655181056,-1155153950,901632758,1897031941,-1308360158,-1228157060,-847864789,
  1393639104,373351379,950779232,625454576,-1170726756,-146354570,2007998917,544563296,
  -2050228658,-1964470824,2058025392,1291430526,424198748,50039436,29584100,-689184263,
  -1865090967,-1503863136,1057563949,-1039604065,-1219600078,-831004069,1469046755,985887462>>

KRC == <<
  <<0,1>>,<<0,32898>>,<<(-2147483647-1),32906>>,<<(-2147483647-1),-2147450880>>,
  <<0,32907>>,<<0,-2147483647>>,<<(-2147483647-1),-2147450751>>,<<(-2147483647-1),32777>>,
  <<0,138>>,<<0,136>>,<<0,-2147450871>>,<<0,-2147483638>>,
  <<0,-2147450741>>,<<(-2147483647-1),139>>,<<(-2147483647-1),32905>>,<<(-2147483647-1),32771>>,
  <<(-2147483647-1),32770>>,<<(-2147483647-1),128>>,<<0,32778>>,<<(-2147483647-1),-2147483638>>,
  <<(-2147483647-1),-2147450751>>,<<(-2147483647-1),32896>>,<<0,-2147483647>>,<<(-2147483647-1),-2147450872>>>>

KROT == \* indexed 1 + x + 5*y
  <<
  0,1,62,28,27,
  36,44,6,55,20,
  3,10,43,25,39,
  41,45,15,21,8,
  18,2,61,56,14>>

DESIP == <<
  58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,
  62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
  57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,
  61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7>>

DESFP == <<
  40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,
  38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,
  36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,
  34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25>>

DESE == <<
  32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,
  12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,
  22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1>>

DESP == <<
  16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,
  2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25>>

DESPC1 == <<
  57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,
  59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,
  31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,
  29,21,13,5,28,20,12,4>>

DESPC2 == <<
  14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,
  26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,
  51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32>>

DESSH == <<
  1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1>>

DESS == <<<<
  14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,
  0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,
  4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,
  15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13>>,
 <<
  15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,
  3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,
  0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,
  13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9>>,
 <<
  10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,
  13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,
  13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,
  1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12>>,
 <<
  7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,
  13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,
  10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,
  3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14>>,
 <<
  2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,
  14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,
  4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,
  11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3>>,
 <<
  12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,
  10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,
  9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,
  4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13>>,
 <<
  4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,
  13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,
  1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,
  6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12>>,
 <<
  13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,
  1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,
  7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,
  2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11>>>>

RMDRL == <<
  0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
  7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,
  1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
  4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13>>

RMDRR == <<
  5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,
  6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,
  8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
  12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11>>

RMDSL == <<
  11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,
  7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,
  11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
  9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6>>

RMDSR == <<
  8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,
  9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,
  15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
  8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11>>

RMDKL == <<
  0,1518500249,1859775393,-1894007588,-1454113458>>

RMDKR == <<
  1352829926,1548603684,1836072691,2053994217,0>>

SIGMA == <<<<
  0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>,
 <<
  14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
 <<
  11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>,
 <<
  7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
 <<
  9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>,
 <<
  2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
 <<
  12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>,
 <<
  13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
 <<
  6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>,
 <<
  10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>>>>

B3PERM == <<
  2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8>>
=============================================================================
