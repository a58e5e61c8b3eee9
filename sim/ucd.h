// written by tools/mkucd.py
static const struct { int lo, hi; char a, b; } ucdCat[] = {
{0,31,'C','c'},{127,159,'C','c'},{173,173,'C','f'},{1536,1539,'C','f'},{1757,1757,'C','f'},{1807,1807,'C','f'},{8203,8207,'C','f'},{8234,8238,'C','f'},{8288,8292,'C','f'},{8298,8303,'C','f'},{65279,65279,'C','f'},{65529,65531,'C','f'},
{69821,69821,'C','f'},{119155,119162,'C','f'},{917505,917505,'C','f'},{917536,917631,'C','f'},{57344,63743,'C','o'},{983040,1048573,'C','o'},{1048576,1114109,'C','o'},{55296,57343,'C','s'},{97,122,'L','l'},{181,181,'L','l'},{223,246,'L','l'},{248,255,'L','l'},
{257,257,'L','l'},{259,259,'L','l'},{261,261,'L','l'},{263,263,'L','l'},{265,265,'L','l'},{267,267,'L','l'},{269,269,'L','l'},{271,271,'L','l'},{273,273,'L','l'},{275,275,'L','l'},{277,277,'L','l'},{279,279,'L','l'},
{281,281,'L','l'},{283,283,'L','l'},{285,285,'L','l'},{287,287,'L','l'},{289,289,'L','l'},{291,291,'L','l'},{293,293,'L','l'},{295,295,'L','l'},{297,297,'L','l'},{299,299,'L','l'},{301,301,'L','l'},{303,303,'L','l'},
{305,305,'L','l'},{307,307,'L','l'},{309,309,'L','l'},{311,312,'L','l'},{314,314,'L','l'},{316,316,'L','l'},{318,318,'L','l'},{320,320,'L','l'},{322,322,'L','l'},{324,324,'L','l'},{326,326,'L','l'},{328,329,'L','l'},
{331,331,'L','l'},{333,333,'L','l'},{335,335,'L','l'},{337,337,'L','l'},{339,339,'L','l'},{341,341,'L','l'},{343,343,'L','l'},{345,345,'L','l'},{347,347,'L','l'},{349,349,'L','l'},{351,351,'L','l'},{353,353,'L','l'},
{355,355,'L','l'},{357,357,'L','l'},{359,359,'L','l'},{361,361,'L','l'},{363,363,'L','l'},{365,365,'L','l'},{367,367,'L','l'},{369,369,'L','l'},{371,371,'L','l'},{373,373,'L','l'},{375,375,'L','l'},{378,378,'L','l'},
{380,380,'L','l'},{382,384,'L','l'},{387,387,'L','l'},{389,389,'L','l'},{392,392,'L','l'},{396,397,'L','l'},{402,402,'L','l'},{405,405,'L','l'},{409,411,'L','l'},{414,414,'L','l'},{417,417,'L','l'},{419,419,'L','l'},
{421,421,'L','l'},{424,424,'L','l'},{426,427,'L','l'},{429,429,'L','l'},{432,432,'L','l'},{436,436,'L','l'},{438,438,'L','l'},{441,442,'L','l'},{445,447,'L','l'},{454,454,'L','l'},{457,457,'L','l'},{460,460,'L','l'},
{462,462,'L','l'},{464,464,'L','l'},{466,466,'L','l'},{468,468,'L','l'},{470,470,'L','l'},{472,472,'L','l'},{474,474,'L','l'},{476,477,'L','l'},{479,479,'L','l'},{481,481,'L','l'},{483,483,'L','l'},{485,485,'L','l'},
{487,487,'L','l'},{489,489,'L','l'},{491,491,'L','l'},{493,493,'L','l'},{495,496,'L','l'},{499,499,'L','l'},{501,501,'L','l'},{505,505,'L','l'},{507,507,'L','l'},{509,509,'L','l'},{511,511,'L','l'},{513,513,'L','l'},
{515,515,'L','l'},{517,517,'L','l'},{519,519,'L','l'},{521,521,'L','l'},{523,523,'L','l'},{525,525,'L','l'},{527,527,'L','l'},{529,529,'L','l'},{531,531,'L','l'},{533,533,'L','l'},{535,535,'L','l'},{537,537,'L','l'},
{539,539,'L','l'},{541,541,'L','l'},{543,543,'L','l'},{545,545,'L','l'},{547,547,'L','l'},{549,549,'L','l'},{551,551,'L','l'},{553,553,'L','l'},{555,555,'L','l'},{557,557,'L','l'},{559,559,'L','l'},{561,561,'L','l'},
{563,569,'L','l'},{572,572,'L','l'},{575,576,'L','l'},{578,578,'L','l'},{583,583,'L','l'},{585,585,'L','l'},{587,587,'L','l'},{589,589,'L','l'},{591,659,'L','l'},{661,687,'L','l'},{881,881,'L','l'},{883,883,'L','l'},
{887,887,'L','l'},{891,893,'L','l'},{912,912,'L','l'},{940,974,'L','l'},{976,977,'L','l'},{981,983,'L','l'},{985,985,'L','l'},{987,987,'L','l'},{989,989,'L','l'},{991,991,'L','l'},{993,993,'L','l'},{995,995,'L','l'},
{997,997,'L','l'},{999,999,'L','l'},{1001,1001,'L','l'},{1003,1003,'L','l'},{1005,1005,'L','l'},{1007,1011,'L','l'},{1013,1013,'L','l'},{1016,1016,'L','l'},{1019,1020,'L','l'},{1072,1119,'L','l'},{1121,1121,'L','l'},{1123,1123,'L','l'},
{1125,1125,'L','l'},{1127,1127,'L','l'},{1129,1129,'L','l'},{1131,1131,'L','l'},{1133,1133,'L','l'},{1135,1135,'L','l'},{1137,1137,'L','l'},{1139,1139,'L','l'},{1141,1141,'L','l'},{1143,1143,'L','l'},{1145,1145,'L','l'},{1147,1147,'L','l'},
{1149,1149,'L','l'},{1151,1151,'L','l'},{1153,1153,'L','l'},{1163,1163,'L','l'},{1165,1165,'L','l'},{1167,1167,'L','l'},{1169,1169,'L','l'},{1171,1171,'L','l'},{1173,1173,'L','l'},{1175,1175,'L','l'},{1177,1177,'L','l'},{1179,1179,'L','l'},
{1181,1181,'L','l'},{1183,1183,'L','l'},{1185,1185,'L','l'},{1187,1187,'L','l'},{1189,1189,'L','l'},{1191,1191,'L','l'},{1193,1193,'L','l'},{1195,1195,'L','l'},{1197,1197,'L','l'},{1199,1199,'L','l'},{1201,1201,'L','l'},{1203,1203,'L','l'},
{1205,1205,'L','l'},{1207,1207,'L','l'},{1209,1209,'L','l'},{1211,1211,'L','l'},{1213,1213,'L','l'},{1215,1215,'L','l'},{1218,1218,'L','l'},{1220,1220,'L','l'},{1222,1222,'L','l'},{1224,1224,'L','l'},{1226,1226,'L','l'},{1228,1228,'L','l'},
{1230,1231,'L','l'},{1233,1233,'L','l'},{1235,1235,'L','l'},{1237,1237,'L','l'},{1239,1239,'L','l'},{1241,1241,'L','l'},{1243,1243,'L','l'},{1245,1245,'L','l'},{1247,1247,'L','l'},{1249,1249,'L','l'},{1251,1251,'L','l'},{1253,1253,'L','l'},
{1255,1255,'L','l'},{1257,1257,'L','l'},{1259,1259,'L','l'},{1261,1261,'L','l'},{1263,1263,'L','l'},{1265,1265,'L','l'},{1267,1267,'L','l'},{1269,1269,'L','l'},{1271,1271,'L','l'},{1273,1273,'L','l'},{1275,1275,'L','l'},{1277,1277,'L','l'},
{1279,1279,'L','l'},{1281,1281,'L','l'},{1283,1283,'L','l'},{1285,1285,'L','l'},{1287,1287,'L','l'},{1289,1289,'L','l'},{1291,1291,'L','l'},{1293,1293,'L','l'},{1295,1295,'L','l'},{1297,1297,'L','l'},{1299,1299,'L','l'},{1301,1301,'L','l'},
{1303,1303,'L','l'},{1305,1305,'L','l'},{1307,1307,'L','l'},{1309,1309,'L','l'},{1311,1311,'L','l'},{1313,1313,'L','l'},{1315,1315,'L','l'},{1317,1317,'L','l'},{1319,1319,'L','l'},{1377,1415,'L','l'},{7424,7467,'L','l'},{7531,7543,'L','l'},
{7545,7578,'L','l'},{7681,7681,'L','l'},{7683,7683,'L','l'},{7685,7685,'L','l'},{7687,7687,'L','l'},{7689,7689,'L','l'},{7691,7691,'L','l'},{7693,7693,'L','l'},{7695,7695,'L','l'},{7697,7697,'L','l'},{7699,7699,'L','l'},{7701,7701,'L','l'},
{7703,7703,'L','l'},{7705,7705,'L','l'},{7707,7707,'L','l'},{7709,7709,'L','l'},{7711,7711,'L','l'},{7713,7713,'L','l'},{7715,7715,'L','l'},{7717,7717,'L','l'},{7719,7719,'L','l'},{7721,7721,'L','l'},{7723,7723,'L','l'},{7725,7725,'L','l'},
{7727,7727,'L','l'},{7729,7729,'L','l'},{7731,7731,'L','l'},{7733,7733,'L','l'},{7735,7735,'L','l'},{7737,7737,'L','l'},{7739,7739,'L','l'},{7741,7741,'L','l'},{7743,7743,'L','l'},{7745,7745,'L','l'},{7747,7747,'L','l'},{7749,7749,'L','l'},
{7751,7751,'L','l'},{7753,7753,'L','l'},{7755,7755,'L','l'},{7757,7757,'L','l'},{7759,7759,'L','l'},{7761,7761,'L','l'},{7763,7763,'L','l'},{7765,7765,'L','l'},{7767,7767,'L','l'},{7769,7769,'L','l'},{7771,7771,'L','l'},{7773,7773,'L','l'},
{7775,7775,'L','l'},{7777,7777,'L','l'},{7779,7779,'L','l'},{7781,7781,'L','l'},{7783,7783,'L','l'},{7785,7785,'L','l'},{7787,7787,'L','l'},{7789,7789,'L','l'},{7791,7791,'L','l'},{7793,7793,'L','l'},{7795,7795,'L','l'},{7797,7797,'L','l'},
{7799,7799,'L','l'},{7801,7801,'L','l'},{7803,7803,'L','l'},{7805,7805,'L','l'},{7807,7807,'L','l'},{7809,7809,'L','l'},{7811,7811,'L','l'},{7813,7813,'L','l'},{7815,7815,'L','l'},{7817,7817,'L','l'},{7819,7819,'L','l'},{7821,7821,'L','l'},
{7823,7823,'L','l'},{7825,7825,'L','l'},{7827,7827,'L','l'},{7829,7837,'L','l'},{7839,7839,'L','l'},{7841,7841,'L','l'},{7843,7843,'L','l'},{7845,7845,'L','l'},{7847,7847,'L','l'},{7849,7849,'L','l'},{7851,7851,'L','l'},{7853,7853,'L','l'},
{7855,7855,'L','l'},{7857,7857,'L','l'},{7859,7859,'L','l'},{7861,7861,'L','l'},{7863,7863,'L','l'},{7865,7865,'L','l'},{7867,7867,'L','l'},{7869,7869,'L','l'},{7871,7871,'L','l'},{7873,7873,'L','l'},{7875,7875,'L','l'},{7877,7877,'L','l'},
{7879,7879,'L','l'},{7881,7881,'L','l'},{7883,7883,'L','l'},{7885,7885,'L','l'},{7887,7887,'L','l'},{7889,7889,'L','l'},{7891,7891,'L','l'},{7893,7893,'L','l'},{7895,7895,'L','l'},{7897,7897,'L','l'},{7899,7899,'L','l'},{7901,7901,'L','l'},
{7903,7903,'L','l'},{7905,7905,'L','l'},{7907,7907,'L','l'},{7909,7909,'L','l'},{7911,7911,'L','l'},{7913,7913,'L','l'},{7915,7915,'L','l'},{7917,7917,'L','l'},{7919,7919,'L','l'},{7921,7921,'L','l'},{7923,7923,'L','l'},{7925,7925,'L','l'},
{7927,7927,'L','l'},{7929,7929,'L','l'},{7931,7931,'L','l'},{7933,7933,'L','l'},{7935,7943,'L','l'},{7952,7957,'L','l'},{7968,7975,'L','l'},{7984,7991,'L','l'},{8000,8005,'L','l'},{8016,8023,'L','l'},{8032,8039,'L','l'},{8048,8061,'L','l'},
{8064,8071,'L','l'},{8080,8087,'L','l'},{8096,8103,'L','l'},{8112,8116,'L','l'},{8118,8119,'L','l'},{8126,8126,'L','l'},{8130,8132,'L','l'},{8134,8135,'L','l'},{8144,8147,'L','l'},{8150,8151,'L','l'},{8160,8167,'L','l'},{8178,8180,'L','l'},
{8182,8183,'L','l'},{8458,8458,'L','l'},{8462,8463,'L','l'},{8467,8467,'L','l'},{8495,8495,'L','l'},{8500,8500,'L','l'},{8505,8505,'L','l'},{8508,8509,'L','l'},{8518,8521,'L','l'},{8526,8526,'L','l'},{8580,8580,'L','l'},{11312,11358,'L','l'},
{11361,11361,'L','l'},{11365,11366,'L','l'},{11368,11368,'L','l'},{11370,11370,'L','l'},{11372,11372,'L','l'},{11377,11377,'L','l'},{11379,11380,'L','l'},{11382,11387,'L','l'},{11393,11393,'L','l'},{11395,11395,'L','l'},{11397,11397,'L','l'},{11399,11399,'L','l'},
{11401,11401,'L','l'},{11403,11403,'L','l'},{11405,11405,'L','l'},{11407,11407,'L','l'},{11409,11409,'L','l'},{11411,11411,'L','l'},{11413,11413,'L','l'},{11415,11415,'L','l'},{11417,11417,'L','l'},{11419,11419,'L','l'},{11421,11421,'L','l'},{11423,11423,'L','l'},
{11425,11425,'L','l'},{11427,11427,'L','l'},{11429,11429,'L','l'},{11431,11431,'L','l'},{11433,11433,'L','l'},{11435,11435,'L','l'},{11437,11437,'L','l'},{11439,11439,'L','l'},{11441,11441,'L','l'},{11443,11443,'L','l'},{11445,11445,'L','l'},{11447,11447,'L','l'},
{11449,11449,'L','l'},{11451,11451,'L','l'},{11453,11453,'L','l'},{11455,11455,'L','l'},{11457,11457,'L','l'},{11459,11459,'L','l'},{11461,11461,'L','l'},{11463,11463,'L','l'},{11465,11465,'L','l'},{11467,11467,'L','l'},{11469,11469,'L','l'},{11471,11471,'L','l'},
{11473,11473,'L','l'},{11475,11475,'L','l'},{11477,11477,'L','l'},{11479,11479,'L','l'},{11481,11481,'L','l'},{11483,11483,'L','l'},{11485,11485,'L','l'},{11487,11487,'L','l'},{11489,11489,'L','l'},{11491,11492,'L','l'},{11500,11500,'L','l'},{11502,11502,'L','l'},
{11520,11557,'L','l'},{42561,42561,'L','l'},{42563,42563,'L','l'},{42565,42565,'L','l'},{42567,42567,'L','l'},{42569,42569,'L','l'},{42571,42571,'L','l'},{42573,42573,'L','l'},{42575,42575,'L','l'},{42577,42577,'L','l'},{42579,42579,'L','l'},{42581,42581,'L','l'},
{42583,42583,'L','l'},{42585,42585,'L','l'},{42587,42587,'L','l'},{42589,42589,'L','l'},{42591,42591,'L','l'},{42593,42593,'L','l'},{42595,42595,'L','l'},{42597,42597,'L','l'},{42599,42599,'L','l'},{42601,42601,'L','l'},{42603,42603,'L','l'},{42605,42605,'L','l'},
{42625,42625,'L','l'},{42627,42627,'L','l'},{42629,42629,'L','l'},{42631,42631,'L','l'},{42633,42633,'L','l'},{42635,42635,'L','l'},{42637,42637,'L','l'},{42639,42639,'L','l'},{42641,42641,'L','l'},{42643,42643,'L','l'},{42645,42645,'L','l'},{42647,42647,'L','l'},
{42787,42787,'L','l'},{42789,42789,'L','l'},{42791,42791,'L','l'},{42793,42793,'L','l'},{42795,42795,'L','l'},{42797,42797,'L','l'},{42799,42801,'L','l'},{42803,42803,'L','l'},{42805,42805,'L','l'},{42807,42807,'L','l'},{42809,42809,'L','l'},{42811,42811,'L','l'},
{42813,42813,'L','l'},{42815,42815,'L','l'},{42817,42817,'L','l'},{42819,42819,'L','l'},{42821,42821,'L','l'},{42823,42823,'L','l'},{42825,42825,'L','l'},{42827,42827,'L','l'},{42829,42829,'L','l'},{42831,42831,'L','l'},{42833,42833,'L','l'},{42835,42835,'L','l'},
{42837,42837,'L','l'},{42839,42839,'L','l'},{42841,42841,'L','l'},{42843,42843,'L','l'},{42845,42845,'L','l'},{42847,42847,'L','l'},{42849,42849,'L','l'},{42851,42851,'L','l'},{42853,42853,'L','l'},{42855,42855,'L','l'},{42857,42857,'L','l'},{42859,42859,'L','l'},
{42861,42861,'L','l'},{42863,42863,'L','l'},{42865,42872,'L','l'},{42874,42874,'L','l'},{42876,42876,'L','l'},{42879,42879,'L','l'},{42881,42881,'L','l'},{42883,42883,'L','l'},{42885,42885,'L','l'},{42887,42887,'L','l'},{42892,42892,'L','l'},{42894,42894,'L','l'},
{42897,42897,'L','l'},{42913,42913,'L','l'},{42915,42915,'L','l'},{42917,42917,'L','l'},{42919,42919,'L','l'},{42921,42921,'L','l'},{43002,43002,'L','l'},{64256,64262,'L','l'},{64275,64279,'L','l'},{65345,65370,'L','l'},{66600,66639,'L','l'},{119834,119859,'L','l'},
{119886,119892,'L','l'},{119894,119911,'L','l'},{119938,119963,'L','l'},{119990,119993,'L','l'},{119995,119995,'L','l'},{119997,120003,'L','l'},{120005,120015,'L','l'},{120042,120067,'L','l'},{120094,120119,'L','l'},{120146,120171,'L','l'},{120198,120223,'L','l'},{120250,120275,'L','l'},
{120302,120327,'L','l'},{120354,120379,'L','l'},{120406,120431,'L','l'},{120458,120485,'L','l'},{120514,120538,'L','l'},{120540,120545,'L','l'},{120572,120596,'L','l'},{120598,120603,'L','l'},{120630,120654,'L','l'},{120656,120661,'L','l'},{120688,120712,'L','l'},{120714,120719,'L','l'},
{120746,120770,'L','l'},{120772,120777,'L','l'},{120779,120779,'L','l'},{688,705,'L','m'},{710,721,'L','m'},{736,740,'L','m'},{748,748,'L','m'},{750,750,'L','m'},{884,884,'L','m'},{890,890,'L','m'},{1369,1369,'L','m'},{1600,1600,'L','m'},
{1765,1766,'L','m'},{2036,2037,'L','m'},{2042,2042,'L','m'},{2074,2074,'L','m'},{2084,2084,'L','m'},{2088,2088,'L','m'},{2417,2417,'L','m'},{3654,3654,'L','m'},{3782,3782,'L','m'},{4348,4348,'L','m'},{6103,6103,'L','m'},{6211,6211,'L','m'},
{6823,6823,'L','m'},{7288,7293,'L','m'},{7468,7521,'L','m'},{7544,7544,'L','m'},{7579,7615,'L','m'},{8305,8305,'L','m'},{8319,8319,'L','m'},{8336,8348,'L','m'},{11389,11389,'L','m'},{11631,11631,'L','m'},{11823,11823,'L','m'},{12293,12293,'L','m'},
{12337,12341,'L','m'},{12347,12347,'L','m'},{12445,12446,'L','m'},{12540,12542,'L','m'},{40981,40981,'L','m'},{42232,42237,'L','m'},{42508,42508,'L','m'},{42623,42623,'L','m'},{42775,42783,'L','m'},{42864,42864,'L','m'},{42888,42888,'L','m'},{43471,43471,'L','m'},
{43632,43632,'L','m'},{43741,43741,'L','m'},{65392,65392,'L','m'},{65438,65439,'L','m'},{443,443,'L','o'},{448,451,'L','o'},{660,660,'L','o'},{1488,1514,'L','o'},{1520,1522,'L','o'},{1568,1599,'L','o'},{1601,1610,'L','o'},{1646,1647,'L','o'},
{1649,1747,'L','o'},{1749,1749,'L','o'},{1774,1775,'L','o'},{1786,1788,'L','o'},{1791,1791,'L','o'},{1808,1808,'L','o'},{1810,1839,'L','o'},{1869,1957,'L','o'},{1969,1969,'L','o'},{1994,2026,'L','o'},{2048,2069,'L','o'},{2112,2136,'L','o'},
{2308,2361,'L','o'},{2365,2365,'L','o'},{2384,2384,'L','o'},{2392,2401,'L','o'},{2418,2423,'L','o'},{2425,2431,'L','o'},{2437,2444,'L','o'},{2447,2448,'L','o'},{2451,2472,'L','o'},{2474,2480,'L','o'},{2482,2482,'L','o'},{2486,2489,'L','o'},
{2493,2493,'L','o'},{2510,2510,'L','o'},{2524,2525,'L','o'},{2527,2529,'L','o'},{2544,2545,'L','o'},{2565,2570,'L','o'},{2575,2576,'L','o'},{2579,2600,'L','o'},{2602,2608,'L','o'},{2610,2611,'L','o'},{2613,2614,'L','o'},{2616,2617,'L','o'},
{2649,2652,'L','o'},{2654,2654,'L','o'},{2674,2676,'L','o'},{2693,2701,'L','o'},{2703,2705,'L','o'},{2707,2728,'L','o'},{2730,2736,'L','o'},{2738,2739,'L','o'},{2741,2745,'L','o'},{2749,2749,'L','o'},{2768,2768,'L','o'},{2784,2785,'L','o'},
{2821,2828,'L','o'},{2831,2832,'L','o'},{2835,2856,'L','o'},{2858,2864,'L','o'},{2866,2867,'L','o'},{2869,2873,'L','o'},{2877,2877,'L','o'},{2908,2909,'L','o'},{2911,2913,'L','o'},{2929,2929,'L','o'},{2947,2947,'L','o'},{2949,2954,'L','o'},
{2958,2960,'L','o'},{2962,2965,'L','o'},{2969,2970,'L','o'},{2972,2972,'L','o'},{2974,2975,'L','o'},{2979,2980,'L','o'},{2984,2986,'L','o'},{2990,3001,'L','o'},{3024,3024,'L','o'},{3077,3084,'L','o'},{3086,3088,'L','o'},{3090,3112,'L','o'},
{3114,3123,'L','o'},{3125,3129,'L','o'},{3133,3133,'L','o'},{3160,3161,'L','o'},{3168,3169,'L','o'},{3205,3212,'L','o'},{3214,3216,'L','o'},{3218,3240,'L','o'},{3242,3251,'L','o'},{3253,3257,'L','o'},{3261,3261,'L','o'},{3294,3294,'L','o'},
{3296,3297,'L','o'},{3313,3314,'L','o'},{3333,3340,'L','o'},{3342,3344,'L','o'},{3346,3386,'L','o'},{3389,3389,'L','o'},{3406,3406,'L','o'},{3424,3425,'L','o'},{3450,3455,'L','o'},{3461,3478,'L','o'},{3482,3505,'L','o'},{3507,3515,'L','o'},
{3517,3517,'L','o'},{3520,3526,'L','o'},{3585,3632,'L','o'},{3634,3635,'L','o'},{3648,3653,'L','o'},{3713,3714,'L','o'},{3716,3716,'L','o'},{3719,3720,'L','o'},{3722,3722,'L','o'},{3725,3725,'L','o'},{3732,3735,'L','o'},{3737,3743,'L','o'},
{3745,3747,'L','o'},{3749,3749,'L','o'},{3751,3751,'L','o'},{3754,3755,'L','o'},{3757,3760,'L','o'},{3762,3763,'L','o'},{3773,3773,'L','o'},{3776,3780,'L','o'},{3804,3805,'L','o'},{3840,3840,'L','o'},{3904,3911,'L','o'},{3913,3948,'L','o'},
{3976,3980,'L','o'},{4096,4138,'L','o'},{4159,4159,'L','o'},{4176,4181,'L','o'},{4186,4189,'L','o'},{4193,4193,'L','o'},{4197,4198,'L','o'},{4206,4208,'L','o'},{4213,4225,'L','o'},{4238,4238,'L','o'},{4352,4680,'L','o'},{4682,4685,'L','o'},
{4688,4694,'L','o'},{4696,4696,'L','o'},{4698,4701,'L','o'},{4704,4744,'L','o'},{4746,4749,'L','o'},{4752,4784,'L','o'},{4786,4789,'L','o'},{4792,4798,'L','o'},{4800,4800,'L','o'},{4802,4805,'L','o'},{4808,4822,'L','o'},{4824,4880,'L','o'},
{4882,4885,'L','o'},{4888,4954,'L','o'},{4992,5007,'L','o'},{5121,5740,'L','o'},{5743,5759,'L','o'},{5761,5786,'L','o'},{5792,5866,'L','o'},{5888,5900,'L','o'},{5902,5905,'L','o'},{5920,5937,'L','o'},{5952,5969,'L','o'},{5984,5996,'L','o'},
{5998,6000,'L','o'},{6016,6067,'L','o'},{6108,6108,'L','o'},{6176,6210,'L','o'},{6212,6263,'L','o'},{6272,6276,'L','o'},{6279,6312,'L','o'},{6314,6314,'L','o'},{6320,6389,'L','o'},{6400,6428,'L','o'},{6480,6509,'L','o'},{6512,6516,'L','o'},
{6528,6571,'L','o'},{6593,6599,'L','o'},{6656,6678,'L','o'},{6688,6740,'L','o'},{6917,6963,'L','o'},{6981,6987,'L','o'},{7043,7072,'L','o'},{7086,7087,'L','o'},{7104,7141,'L','o'},{7168,7203,'L','o'},{7245,7247,'L','o'},{7258,7287,'L','o'},
{7401,7404,'L','o'},{7406,7409,'L','o'},{8501,8504,'L','o'},{11568,11621,'L','o'},{11648,11670,'L','o'},{11680,11686,'L','o'},{11688,11694,'L','o'},{11696,11702,'L','o'},{11704,11710,'L','o'},{11712,11718,'L','o'},{11720,11726,'L','o'},{11728,11734,'L','o'},
{11736,11742,'L','o'},{12294,12294,'L','o'},{12348,12348,'L','o'},{12353,12438,'L','o'},{12447,12447,'L','o'},{12449,12538,'L','o'},{12543,12543,'L','o'},{12549,12589,'L','o'},{12593,12686,'L','o'},{12704,12730,'L','o'},{12784,12799,'L','o'},{13312,19893,'L','o'},
{19968,40907,'L','o'},{40960,40980,'L','o'},{40982,42124,'L','o'},{42192,42231,'L','o'},{42240,42507,'L','o'},{42512,42527,'L','o'},{42538,42539,'L','o'},{42606,42606,'L','o'},{42656,42725,'L','o'},{43003,43009,'L','o'},{43011,43013,'L','o'},{43015,43018,'L','o'},
{43020,43042,'L','o'},{43072,43123,'L','o'},{43138,43187,'L','o'},{43250,43255,'L','o'},{43259,43259,'L','o'},{43274,43301,'L','o'},{43312,43334,'L','o'},{43360,43388,'L','o'},{43396,43442,'L','o'},{43520,43560,'L','o'},{43584,43586,'L','o'},{43588,43595,'L','o'},
{43616,43631,'L','o'},{43633,43638,'L','o'},{43642,43642,'L','o'},{43648,43695,'L','o'},{43697,43697,'L','o'},{43701,43702,'L','o'},{43705,43709,'L','o'},{43712,43712,'L','o'},{43714,43714,'L','o'},{43739,43740,'L','o'},{43777,43782,'L','o'},{43785,43790,'L','o'},
{43793,43798,'L','o'},{43808,43814,'L','o'},{43816,43822,'L','o'},{43968,44002,'L','o'},{44032,55203,'L','o'},{55216,55238,'L','o'},{55243,55291,'L','o'},{63744,64045,'L','o'},{64048,64109,'L','o'},{64112,64217,'L','o'},{64285,64285,'L','o'},{64287,64296,'L','o'},
{64298,64310,'L','o'},{64312,64316,'L','o'},{64318,64318,'L','o'},{64320,64321,'L','o'},{64323,64324,'L','o'},{64326,64433,'L','o'},{64467,64829,'L','o'},{64848,64911,'L','o'},{64914,64967,'L','o'},{65008,65019,'L','o'},{65136,65140,'L','o'},{65142,65276,'L','o'},
{65382,65391,'L','o'},{65393,65437,'L','o'},{65440,65470,'L','o'},{65474,65479,'L','o'},{65482,65487,'L','o'},{65490,65495,'L','o'},{65498,65500,'L','o'},{65536,65547,'L','o'},{65549,65574,'L','o'},{65576,65594,'L','o'},{65596,65597,'L','o'},{65599,65613,'L','o'},
{65616,65629,'L','o'},{65664,65786,'L','o'},{66176,66204,'L','o'},{66208,66256,'L','o'},{66304,66334,'L','o'},{66352,66368,'L','o'},{66370,66377,'L','o'},{66432,66461,'L','o'},{66464,66499,'L','o'},{66504,66511,'L','o'},{66640,66717,'L','o'},{67584,67589,'L','o'},
{67592,67592,'L','o'},{67594,67637,'L','o'},{67639,67640,'L','o'},{67644,67644,'L','o'},{67647,67669,'L','o'},{67840,67861,'L','o'},{67872,67897,'L','o'},{68096,68096,'L','o'},{68112,68115,'L','o'},{68117,68119,'L','o'},{68121,68147,'L','o'},{68192,68220,'L','o'},
{68352,68405,'L','o'},{68416,68437,'L','o'},{68448,68466,'L','o'},{68608,68680,'L','o'},{69635,69687,'L','o'},{69763,69807,'L','o'},{73728,74606,'L','o'},{77824,78894,'L','o'},{92160,92728,'L','o'},{110592,110593,'L','o'},{131072,173782,'L','o'},{173824,177972,'L','o'},
{177984,178205,'L','o'},{194560,195101,'L','o'},{453,453,'L','t'},{456,456,'L','t'},{459,459,'L','t'},{498,498,'L','t'},{8072,8079,'L','t'},{8088,8095,'L','t'},{8104,8111,'L','t'},{8124,8124,'L','t'},{8140,8140,'L','t'},{8188,8188,'L','t'},
{65,90,'L','u'},{192,214,'L','u'},{216,222,'L','u'},{256,256,'L','u'},{258,258,'L','u'},{260,260,'L','u'},{262,262,'L','u'},{264,264,'L','u'},{266,266,'L','u'},{268,268,'L','u'},{270,270,'L','u'},{272,272,'L','u'},
{274,274,'L','u'},{276,276,'L','u'},{278,278,'L','u'},{280,280,'L','u'},{282,282,'L','u'},{284,284,'L','u'},{286,286,'L','u'},{288,288,'L','u'},{290,290,'L','u'},{292,292,'L','u'},{294,294,'L','u'},{296,296,'L','u'},
{298,298,'L','u'},{300,300,'L','u'},{302,302,'L','u'},{304,304,'L','u'},{306,306,'L','u'},{308,308,'L','u'},{310,310,'L','u'},{313,313,'L','u'},{315,315,'L','u'},{317,317,'L','u'},{319,319,'L','u'},{321,321,'L','u'},
{323,323,'L','u'},{325,325,'L','u'},{327,327,'L','u'},{330,330,'L','u'},{332,332,'L','u'},{334,334,'L','u'},{336,336,'L','u'},{338,338,'L','u'},{340,340,'L','u'},{342,342,'L','u'},{344,344,'L','u'},{346,346,'L','u'},
{348,348,'L','u'},{350,350,'L','u'},{352,352,'L','u'},{354,354,'L','u'},{356,356,'L','u'},{358,358,'L','u'},{360,360,'L','u'},{362,362,'L','u'},{364,364,'L','u'},{366,366,'L','u'},{368,368,'L','u'},{370,370,'L','u'},
{372,372,'L','u'},{374,374,'L','u'},{376,377,'L','u'},{379,379,'L','u'},{381,381,'L','u'},{385,386,'L','u'},{388,388,'L','u'},{390,391,'L','u'},{393,395,'L','u'},{398,401,'L','u'},{403,404,'L','u'},{406,408,'L','u'},
{412,413,'L','u'},{415,416,'L','u'},{418,418,'L','u'},{420,420,'L','u'},{422,423,'L','u'},{425,425,'L','u'},{428,428,'L','u'},{430,431,'L','u'},{433,435,'L','u'},{437,437,'L','u'},{439,440,'L','u'},{444,444,'L','u'},
{452,452,'L','u'},{455,455,'L','u'},{458,458,'L','u'},{461,461,'L','u'},{463,463,'L','u'},{465,465,'L','u'},{467,467,'L','u'},{469,469,'L','u'},{471,471,'L','u'},{473,473,'L','u'},{475,475,'L','u'},{478,478,'L','u'},
{480,480,'L','u'},{482,482,'L','u'},{484,484,'L','u'},{486,486,'L','u'},{488,488,'L','u'},{490,490,'L','u'},{492,492,'L','u'},{494,494,'L','u'},{497,497,'L','u'},{500,500,'L','u'},{502,504,'L','u'},{506,506,'L','u'},
{508,508,'L','u'},{510,510,'L','u'},{512,512,'L','u'},{514,514,'L','u'},{516,516,'L','u'},{518,518,'L','u'},{520,520,'L','u'},{522,522,'L','u'},{524,524,'L','u'},{526,526,'L','u'},{528,528,'L','u'},{530,530,'L','u'},
{532,532,'L','u'},{534,534,'L','u'},{536,536,'L','u'},{538,538,'L','u'},{540,540,'L','u'},{542,542,'L','u'},{544,544,'L','u'},{546,546,'L','u'},{548,548,'L','u'},{550,550,'L','u'},{552,552,'L','u'},{554,554,'L','u'},
{556,556,'L','u'},{558,558,'L','u'},{560,560,'L','u'},{562,562,'L','u'},{570,571,'L','u'},{573,574,'L','u'},{577,577,'L','u'},{579,582,'L','u'},{584,584,'L','u'},{586,586,'L','u'},{588,588,'L','u'},{590,590,'L','u'},
{880,880,'L','u'},{882,882,'L','u'},{886,886,'L','u'},{902,902,'L','u'},{904,906,'L','u'},{908,908,'L','u'},{910,911,'L','u'},{913,929,'L','u'},{931,939,'L','u'},{975,975,'L','u'},{978,980,'L','u'},{984,984,'L','u'},
{986,986,'L','u'},{988,988,'L','u'},{990,990,'L','u'},{992,992,'L','u'},{994,994,'L','u'},{996,996,'L','u'},{998,998,'L','u'},{1000,1000,'L','u'},{1002,1002,'L','u'},{1004,1004,'L','u'},{1006,1006,'L','u'},{1012,1012,'L','u'},
{1015,1015,'L','u'},{1017,1018,'L','u'},{1021,1071,'L','u'},{1120,1120,'L','u'},{1122,1122,'L','u'},{1124,1124,'L','u'},{1126,1126,'L','u'},{1128,1128,'L','u'},{1130,1130,'L','u'},{1132,1132,'L','u'},{1134,1134,'L','u'},{1136,1136,'L','u'},
{1138,1138,'L','u'},{1140,1140,'L','u'},{1142,1142,'L','u'},{1144,1144,'L','u'},{1146,1146,'L','u'},{1148,1148,'L','u'},{1150,1150,'L','u'},{1152,1152,'L','u'},{1162,1162,'L','u'},{1164,1164,'L','u'},{1166,1166,'L','u'},{1168,1168,'L','u'},
{1170,1170,'L','u'},{1172,1172,'L','u'},{1174,1174,'L','u'},{1176,1176,'L','u'},{1178,1178,'L','u'},{1180,1180,'L','u'},{1182,1182,'L','u'},{1184,1184,'L','u'},{1186,1186,'L','u'},{1188,1188,'L','u'},{1190,1190,'L','u'},{1192,1192,'L','u'},
{1194,1194,'L','u'},{1196,1196,'L','u'},{1198,1198,'L','u'},{1200,1200,'L','u'},{1202,1202,'L','u'},{1204,1204,'L','u'},{1206,1206,'L','u'},{1208,1208,'L','u'},{1210,1210,'L','u'},{1212,1212,'L','u'},{1214,1214,'L','u'},{1216,1217,'L','u'},
{1219,1219,'L','u'},{1221,1221,'L','u'},{1223,1223,'L','u'},{1225,1225,'L','u'},{1227,1227,'L','u'},{1229,1229,'L','u'},{1232,1232,'L','u'},{1234,1234,'L','u'},{1236,1236,'L','u'},{1238,1238,'L','u'},{1240,1240,'L','u'},{1242,1242,'L','u'},
{1244,1244,'L','u'},{1246,1246,'L','u'},{1248,1248,'L','u'},{1250,1250,'L','u'},{1252,1252,'L','u'},{1254,1254,'L','u'},{1256,1256,'L','u'},{1258,1258,'L','u'},{1260,1260,'L','u'},{1262,1262,'L','u'},{1264,1264,'L','u'},{1266,1266,'L','u'},
{1268,1268,'L','u'},{1270,1270,'L','u'},{1272,1272,'L','u'},{1274,1274,'L','u'},{1276,1276,'L','u'},{1278,1278,'L','u'},{1280,1280,'L','u'},{1282,1282,'L','u'},{1284,1284,'L','u'},{1286,1286,'L','u'},{1288,1288,'L','u'},{1290,1290,'L','u'},
{1292,1292,'L','u'},{1294,1294,'L','u'},{1296,1296,'L','u'},{1298,1298,'L','u'},{1300,1300,'L','u'},{1302,1302,'L','u'},{1304,1304,'L','u'},{1306,1306,'L','u'},{1308,1308,'L','u'},{1310,1310,'L','u'},{1312,1312,'L','u'},{1314,1314,'L','u'},
{1316,1316,'L','u'},{1318,1318,'L','u'},{1329,1366,'L','u'},{4256,4293,'L','u'},{7680,7680,'L','u'},{7682,7682,'L','u'},{7684,7684,'L','u'},{7686,7686,'L','u'},{7688,7688,'L','u'},{7690,7690,'L','u'},{7692,7692,'L','u'},{7694,7694,'L','u'},
{7696,7696,'L','u'},{7698,7698,'L','u'},{7700,7700,'L','u'},{7702,7702,'L','u'},{7704,7704,'L','u'},{7706,7706,'L','u'},{7708,7708,'L','u'},{7710,7710,'L','u'},{7712,7712,'L','u'},{7714,7714,'L','u'},{7716,7716,'L','u'},{7718,7718,'L','u'},
{7720,7720,'L','u'},{7722,7722,'L','u'},{7724,7724,'L','u'},{7726,7726,'L','u'},{7728,7728,'L','u'},{7730,7730,'L','u'},{7732,7732,'L','u'},{7734,7734,'L','u'},{7736,7736,'L','u'},{7738,7738,'L','u'},{7740,7740,'L','u'},{7742,7742,'L','u'},
{7744,7744,'L','u'},{7746,7746,'L','u'},{7748,7748,'L','u'},{7750,7750,'L','u'},{7752,7752,'L','u'},{7754,7754,'L','u'},{7756,7756,'L','u'},{7758,7758,'L','u'},{7760,7760,'L','u'},{7762,7762,'L','u'},{7764,7764,'L','u'},{7766,7766,'L','u'},
{7768,7768,'L','u'},{7770,7770,'L','u'},{7772,7772,'L','u'},{7774,7774,'L','u'},{7776,7776,'L','u'},{7778,7778,'L','u'},{7780,7780,'L','u'},{7782,7782,'L','u'},{7784,7784,'L','u'},{7786,7786,'L','u'},{7788,7788,'L','u'},{7790,7790,'L','u'},
{7792,7792,'L','u'},{7794,7794,'L','u'},{7796,7796,'L','u'},{7798,7798,'L','u'},{7800,7800,'L','u'},{7802,7802,'L','u'},{7804,7804,'L','u'},{7806,7806,'L','u'},{7808,7808,'L','u'},{7810,7810,'L','u'},{7812,7812,'L','u'},{7814,7814,'L','u'},
{7816,7816,'L','u'},{7818,7818,'L','u'},{7820,7820,'L','u'},{7822,7822,'L','u'},{7824,7824,'L','u'},{7826,7826,'L','u'},{7828,7828,'L','u'},{7838,7838,'L','u'},{7840,7840,'L','u'},{7842,7842,'L','u'},{7844,7844,'L','u'},{7846,7846,'L','u'},
{7848,7848,'L','u'},{7850,7850,'L','u'},{7852,7852,'L','u'},{7854,7854,'L','u'},{7856,7856,'L','u'},{7858,7858,'L','u'},{7860,7860,'L','u'},{7862,7862,'L','u'},{7864,7864,'L','u'},{7866,7866,'L','u'},{7868,7868,'L','u'},{7870,7870,'L','u'},
{7872,7872,'L','u'},{7874,7874,'L','u'},{7876,7876,'L','u'},{7878,7878,'L','u'},{7880,7880,'L','u'},{7882,7882,'L','u'},{7884,7884,'L','u'},{7886,7886,'L','u'},{7888,7888,'L','u'},{7890,7890,'L','u'},{7892,7892,'L','u'},{7894,7894,'L','u'},
{7896,7896,'L','u'},{7898,7898,'L','u'},{7900,7900,'L','u'},{7902,7902,'L','u'},{7904,7904,'L','u'},{7906,7906,'L','u'},{7908,7908,'L','u'},{7910,7910,'L','u'},{7912,7912,'L','u'},{7914,7914,'L','u'},{7916,7916,'L','u'},{7918,7918,'L','u'},
{7920,7920,'L','u'},{7922,7922,'L','u'},{7924,7924,'L','u'},{7926,7926,'L','u'},{7928,7928,'L','u'},{7930,7930,'L','u'},{7932,7932,'L','u'},{7934,7934,'L','u'},{7944,7951,'L','u'},{7960,7965,'L','u'},{7976,7983,'L','u'},{7992,7999,'L','u'},
{8008,8013,'L','u'},{8025,8025,'L','u'},{8027,8027,'L','u'},{8029,8029,'L','u'},{8031,8031,'L','u'},{8040,8047,'L','u'},{8120,8123,'L','u'},{8136,8139,'L','u'},{8152,8155,'L','u'},{8168,8172,'L','u'},{8184,8187,'L','u'},{8450,8450,'L','u'},
{8455,8455,'L','u'},{8459,8461,'L','u'},{8464,8466,'L','u'},{8469,8469,'L','u'},{8473,8477,'L','u'},{8484,8484,'L','u'},{8486,8486,'L','u'},{8488,8488,'L','u'},{8490,8493,'L','u'},{8496,8499,'L','u'},{8510,8511,'L','u'},{8517,8517,'L','u'},
{8579,8579,'L','u'},{11264,11310,'L','u'},{11360,11360,'L','u'},{11362,11364,'L','u'},{11367,11367,'L','u'},{11369,11369,'L','u'},{11371,11371,'L','u'},{11373,11376,'L','u'},{11378,11378,'L','u'},{11381,11381,'L','u'},{11390,11392,'L','u'},{11394,11394,'L','u'},
{11396,11396,'L','u'},{11398,11398,'L','u'},{11400,11400,'L','u'},{11402,11402,'L','u'},{11404,11404,'L','u'},{11406,11406,'L','u'},{11408,11408,'L','u'},{11410,11410,'L','u'},{11412,11412,'L','u'},{11414,11414,'L','u'},{11416,11416,'L','u'},{11418,11418,'L','u'},
{11420,11420,'L','u'},{11422,11422,'L','u'},{11424,11424,'L','u'},{11426,11426,'L','u'},{11428,11428,'L','u'},{11430,11430,'L','u'},{11432,11432,'L','u'},{11434,11434,'L','u'},{11436,11436,'L','u'},{11438,11438,'L','u'},{11440,11440,'L','u'},{11442,11442,'L','u'},
{11444,11444,'L','u'},{11446,11446,'L','u'},{11448,11448,'L','u'},{11450,11450,'L','u'},{11452,11452,'L','u'},{11454,11454,'L','u'},{11456,11456,'L','u'},{11458,11458,'L','u'},{11460,11460,'L','u'},{11462,11462,'L','u'},{11464,11464,'L','u'},{11466,11466,'L','u'},
{11468,11468,'L','u'},{11470,11470,'L','u'},{11472,11472,'L','u'},{11474,11474,'L','u'},{11476,11476,'L','u'},{11478,11478,'L','u'},{11480,11480,'L','u'},{11482,11482,'L','u'},{11484,11484,'L','u'},{11486,11486,'L','u'},{11488,11488,'L','u'},{11490,11490,'L','u'},
{11499,11499,'L','u'},{11501,11501,'L','u'},{42560,42560,'L','u'},{42562,42562,'L','u'},{42564,42564,'L','u'},{42566,42566,'L','u'},{42568,42568,'L','u'},{42570,42570,'L','u'},{42572,42572,'L','u'},{42574,42574,'L','u'},{42576,42576,'L','u'},{42578,42578,'L','u'},
{42580,42580,'L','u'},{42582,42582,'L','u'},{42584,42584,'L','u'},{42586,42586,'L','u'},{42588,42588,'L','u'},{42590,42590,'L','u'},{42592,42592,'L','u'},{42594,42594,'L','u'},{42596,42596,'L','u'},{42598,42598,'L','u'},{42600,42600,'L','u'},{42602,42602,'L','u'},
{42604,42604,'L','u'},{42624,42624,'L','u'},{42626,42626,'L','u'},{42628,42628,'L','u'},{42630,42630,'L','u'},{42632,42632,'L','u'},{42634,42634,'L','u'},{42636,42636,'L','u'},{42638,42638,'L','u'},{42640,42640,'L','u'},{42642,42642,'L','u'},{42644,42644,'L','u'},
{42646,42646,'L','u'},{42786,42786,'L','u'},{42788,42788,'L','u'},{42790,42790,'L','u'},{42792,42792,'L','u'},{42794,42794,'L','u'},{42796,42796,'L','u'},{42798,42798,'L','u'},{42802,42802,'L','u'},{42804,42804,'L','u'},{42806,42806,'L','u'},{42808,42808,'L','u'},
{42810,42810,'L','u'},{42812,42812,'L','u'},{42814,42814,'L','u'},{42816,42816,'L','u'},{42818,42818,'L','u'},{42820,42820,'L','u'},{42822,42822,'L','u'},{42824,42824,'L','u'},{42826,42826,'L','u'},{42828,42828,'L','u'},{42830,42830,'L','u'},{42832,42832,'L','u'},
{42834,42834,'L','u'},{42836,42836,'L','u'},{42838,42838,'L','u'},{42840,42840,'L','u'},{42842,42842,'L','u'},{42844,42844,'L','u'},{42846,42846,'L','u'},{42848,42848,'L','u'},{42850,42850,'L','u'},{42852,42852,'L','u'},{42854,42854,'L','u'},{42856,42856,'L','u'},
{42858,42858,'L','u'},{42860,42860,'L','u'},{42862,42862,'L','u'},{42873,42873,'L','u'},{42875,42875,'L','u'},{42877,42878,'L','u'},{42880,42880,'L','u'},{42882,42882,'L','u'},{42884,42884,'L','u'},{42886,42886,'L','u'},{42891,42891,'L','u'},{42893,42893,'L','u'},
{42896,42896,'L','u'},{42912,42912,'L','u'},{42914,42914,'L','u'},{42916,42916,'L','u'},{42918,42918,'L','u'},{42920,42920,'L','u'},{65313,65338,'L','u'},{66560,66599,'L','u'},{119808,119833,'L','u'},{119860,119885,'L','u'},{119912,119937,'L','u'},{119964,119964,'L','u'},
{119966,119967,'L','u'},{119970,119970,'L','u'},{119973,119974,'L','u'},{119977,119980,'L','u'},{119982,119989,'L','u'},{120016,120041,'L','u'},{120068,120069,'L','u'},{120071,120074,'L','u'},{120077,120084,'L','u'},{120086,120092,'L','u'},{120120,120121,'L','u'},{120123,120126,'L','u'},
{120128,120132,'L','u'},{120134,120134,'L','u'},{120138,120144,'L','u'},{120172,120197,'L','u'},{120224,120249,'L','u'},{120276,120301,'L','u'},{120328,120353,'L','u'},{120380,120405,'L','u'},{120432,120457,'L','u'},{120488,120512,'L','u'},{120546,120570,'L','u'},{120604,120628,'L','u'},
{120662,120686,'L','u'},{120720,120744,'L','u'},{120778,120778,'L','u'},{2307,2307,'M','c'},{2363,2363,'M','c'},{2366,2368,'M','c'},{2377,2380,'M','c'},{2382,2383,'M','c'},{2434,2435,'M','c'},{2494,2496,'M','c'},{2503,2504,'M','c'},{2507,2508,'M','c'},
{2519,2519,'M','c'},{2563,2563,'M','c'},{2622,2624,'M','c'},{2691,2691,'M','c'},{2750,2752,'M','c'},{2761,2761,'M','c'},{2763,2764,'M','c'},{2818,2819,'M','c'},{2878,2878,'M','c'},{2880,2880,'M','c'},{2887,2888,'M','c'},{2891,2892,'M','c'},
{2903,2903,'M','c'},{3006,3007,'M','c'},{3009,3010,'M','c'},{3014,3016,'M','c'},{3018,3020,'M','c'},{3031,3031,'M','c'},{3073,3075,'M','c'},{3137,3140,'M','c'},{3202,3203,'M','c'},{3262,3262,'M','c'},{3264,3268,'M','c'},{3271,3272,'M','c'},
{3274,3275,'M','c'},{3285,3286,'M','c'},{3330,3331,'M','c'},{3390,3392,'M','c'},{3398,3400,'M','c'},{3402,3404,'M','c'},{3415,3415,'M','c'},{3458,3459,'M','c'},{3535,3537,'M','c'},{3544,3551,'M','c'},{3570,3571,'M','c'},{3902,3903,'M','c'},
{3967,3967,'M','c'},{4139,4140,'M','c'},{4145,4145,'M','c'},{4152,4152,'M','c'},{4155,4156,'M','c'},{4182,4183,'M','c'},{4194,4196,'M','c'},{4199,4205,'M','c'},{4227,4228,'M','c'},{4231,4236,'M','c'},{4239,4239,'M','c'},{4250,4252,'M','c'},
{6070,6070,'M','c'},{6078,6085,'M','c'},{6087,6088,'M','c'},{6435,6438,'M','c'},{6441,6443,'M','c'},{6448,6449,'M','c'},{6451,6456,'M','c'},{6681,6682,'M','c'},{6741,6741,'M','c'},{6743,6743,'M','c'},{6753,6753,'M','c'},{6755,6756,'M','c'},
{6765,6770,'M','c'},{6916,6916,'M','c'},{6965,6965,'M','c'},{6971,6971,'M','c'},{6973,6977,'M','c'},{6979,6980,'M','c'},{7042,7042,'M','c'},{7073,7073,'M','c'},{7078,7079,'M','c'},{7082,7082,'M','c'},{7143,7143,'M','c'},{7146,7148,'M','c'},
{7150,7150,'M','c'},{7154,7155,'M','c'},{7204,7211,'M','c'},{7220,7221,'M','c'},{7393,7393,'M','c'},{43043,43044,'M','c'},{43047,43047,'M','c'},{43136,43137,'M','c'},{43188,43203,'M','c'},{43346,43347,'M','c'},{43395,43395,'M','c'},{43444,43445,'M','c'},
{43450,43451,'M','c'},{43454,43456,'M','c'},{43567,43568,'M','c'},{43571,43572,'M','c'},{43597,43597,'M','c'},{43643,43643,'M','c'},{44003,44004,'M','c'},{44006,44007,'M','c'},{44009,44010,'M','c'},{44012,44012,'M','c'},{69632,69632,'M','c'},{69634,69634,'M','c'},
{69762,69762,'M','c'},{69808,69810,'M','c'},{69815,69816,'M','c'},{119141,119142,'M','c'},{119149,119154,'M','c'},{1160,1161,'M','e'},{8413,8416,'M','e'},{8418,8420,'M','e'},{42608,42610,'M','e'},{768,879,'M','n'},{1155,1159,'M','n'},{1425,1469,'M','n'},
{1471,1471,'M','n'},{1473,1474,'M','n'},{1476,1477,'M','n'},{1479,1479,'M','n'},{1552,1562,'M','n'},{1611,1631,'M','n'},{1648,1648,'M','n'},{1750,1756,'M','n'},{1759,1764,'M','n'},{1767,1768,'M','n'},{1770,1773,'M','n'},{1809,1809,'M','n'},
{1840,1866,'M','n'},{1958,1968,'M','n'},{2027,2035,'M','n'},{2070,2073,'M','n'},{2075,2083,'M','n'},{2085,2087,'M','n'},{2089,2093,'M','n'},{2137,2139,'M','n'},{2304,2306,'M','n'},{2362,2362,'M','n'},{2364,2364,'M','n'},{2369,2376,'M','n'},
{2381,2381,'M','n'},{2385,2391,'M','n'},{2402,2403,'M','n'},{2433,2433,'M','n'},{2492,2492,'M','n'},{2497,2500,'M','n'},{2509,2509,'M','n'},{2530,2531,'M','n'},{2561,2562,'M','n'},{2620,2620,'M','n'},{2625,2626,'M','n'},{2631,2632,'M','n'},
{2635,2637,'M','n'},{2641,2641,'M','n'},{2672,2673,'M','n'},{2677,2677,'M','n'},{2689,2690,'M','n'},{2748,2748,'M','n'},{2753,2757,'M','n'},{2759,2760,'M','n'},{2765,2765,'M','n'},{2786,2787,'M','n'},{2817,2817,'M','n'},{2876,2876,'M','n'},
{2879,2879,'M','n'},{2881,2884,'M','n'},{2893,2893,'M','n'},{2902,2902,'M','n'},{2914,2915,'M','n'},{2946,2946,'M','n'},{3008,3008,'M','n'},{3021,3021,'M','n'},{3134,3136,'M','n'},{3142,3144,'M','n'},{3146,3149,'M','n'},{3157,3158,'M','n'},
{3170,3171,'M','n'},{3260,3260,'M','n'},{3263,3263,'M','n'},{3270,3270,'M','n'},{3276,3277,'M','n'},{3298,3299,'M','n'},{3393,3396,'M','n'},{3405,3405,'M','n'},{3426,3427,'M','n'},{3530,3530,'M','n'},{3538,3540,'M','n'},{3542,3542,'M','n'},
{3633,3633,'M','n'},{3636,3642,'M','n'},{3655,3662,'M','n'},{3761,3761,'M','n'},{3764,3769,'M','n'},{3771,3772,'M','n'},{3784,3789,'M','n'},{3864,3865,'M','n'},{3893,3893,'M','n'},{3895,3895,'M','n'},{3897,3897,'M','n'},{3953,3966,'M','n'},
{3968,3972,'M','n'},{3974,3975,'M','n'},{3981,3991,'M','n'},{3993,4028,'M','n'},{4038,4038,'M','n'},{4141,4144,'M','n'},{4146,4151,'M','n'},{4153,4154,'M','n'},{4157,4158,'M','n'},{4184,4185,'M','n'},{4190,4192,'M','n'},{4209,4212,'M','n'},
{4226,4226,'M','n'},{4229,4230,'M','n'},{4237,4237,'M','n'},{4253,4253,'M','n'},{4957,4959,'M','n'},{5906,5908,'M','n'},{5938,5939,'M','n'},{5970,5971,'M','n'},{6002,6003,'M','n'},{6071,6077,'M','n'},{6086,6086,'M','n'},{6089,6099,'M','n'},
{6109,6109,'M','n'},{6155,6157,'M','n'},{6313,6313,'M','n'},{6432,6434,'M','n'},{6439,6440,'M','n'},{6450,6450,'M','n'},{6457,6459,'M','n'},{6679,6680,'M','n'},{6742,6742,'M','n'},{6744,6750,'M','n'},{6752,6752,'M','n'},{6754,6754,'M','n'},
{6757,6764,'M','n'},{6771,6780,'M','n'},{6783,6783,'M','n'},{6912,6915,'M','n'},{6964,6964,'M','n'},{6966,6970,'M','n'},{6972,6972,'M','n'},{6978,6978,'M','n'},{7019,7027,'M','n'},{7040,7041,'M','n'},{7074,7077,'M','n'},{7080,7081,'M','n'},
{7142,7142,'M','n'},{7144,7145,'M','n'},{7149,7149,'M','n'},{7151,7153,'M','n'},{7212,7219,'M','n'},{7222,7223,'M','n'},{7376,7378,'M','n'},{7380,7392,'M','n'},{7394,7400,'M','n'},{7405,7405,'M','n'},{7616,7654,'M','n'},{7676,7679,'M','n'},
{8400,8412,'M','n'},{8417,8417,'M','n'},{8421,8432,'M','n'},{11503,11505,'M','n'},{11647,11647,'M','n'},{11744,11775,'M','n'},{12330,12333,'M','n'},{12441,12442,'M','n'},{42607,42607,'M','n'},{42620,42621,'M','n'},{42736,42737,'M','n'},{43010,43010,'M','n'},
{43014,43014,'M','n'},{43019,43019,'M','n'},{43045,43046,'M','n'},{43204,43204,'M','n'},{43232,43249,'M','n'},{43302,43309,'M','n'},{43335,43345,'M','n'},{43392,43394,'M','n'},{43443,43443,'M','n'},{43446,43449,'M','n'},{43452,43452,'M','n'},{43561,43566,'M','n'},
{43569,43570,'M','n'},{43573,43574,'M','n'},{43587,43587,'M','n'},{43596,43596,'M','n'},{43696,43696,'M','n'},{43698,43700,'M','n'},{43703,43704,'M','n'},{43710,43711,'M','n'},{43713,43713,'M','n'},{44005,44005,'M','n'},{44008,44008,'M','n'},{44013,44013,'M','n'},
{64286,64286,'M','n'},{65024,65039,'M','n'},{65056,65062,'M','n'},{66045,66045,'M','n'},{68097,68099,'M','n'},{68101,68102,'M','n'},{68108,68111,'M','n'},{68152,68154,'M','n'},{68159,68159,'M','n'},{69633,69633,'M','n'},{69688,69702,'M','n'},{69760,69761,'M','n'},
{69811,69814,'M','n'},{69817,69818,'M','n'},{119143,119145,'M','n'},{119163,119170,'M','n'},{119173,119179,'M','n'},{119210,119213,'M','n'},{119362,119364,'M','n'},{917760,917999,'M','n'},{48,57,'N','d'},{1632,1641,'N','d'},{1776,1785,'N','d'},{1984,1993,'N','d'},
{2406,2415,'N','d'},{2534,2543,'N','d'},{2662,2671,'N','d'},{2790,2799,'N','d'},{2918,2927,'N','d'},{3046,3055,'N','d'},{3174,3183,'N','d'},{3302,3311,'N','d'},{3430,3439,'N','d'},{3664,3673,'N','d'},{3792,3801,'N','d'},{3872,3881,'N','d'},
{4160,4169,'N','d'},{4240,4249,'N','d'},{6112,6121,'N','d'},{6160,6169,'N','d'},{6470,6479,'N','d'},{6608,6617,'N','d'},{6784,6793,'N','d'},{6800,6809,'N','d'},{6992,7001,'N','d'},{7088,7097,'N','d'},{7232,7241,'N','d'},{7248,7257,'N','d'},
{42528,42537,'N','d'},{43216,43225,'N','d'},{43264,43273,'N','d'},{43472,43481,'N','d'},{43600,43609,'N','d'},{44016,44025,'N','d'},{65296,65305,'N','d'},{66720,66729,'N','d'},{69734,69743,'N','d'},{120782,120831,'N','d'},{5870,5872,'N','l'},{8544,8578,'N','l'},
{8581,8584,'N','l'},{12295,12295,'N','l'},{12321,12329,'N','l'},{12344,12346,'N','l'},{42726,42735,'N','l'},{65856,65908,'N','l'},{66369,66369,'N','l'},{66378,66378,'N','l'},{66513,66517,'N','l'},{74752,74850,'N','l'},{178,179,'N','o'},{185,185,'N','o'},
{188,190,'N','o'},{2548,2553,'N','o'},{2930,2935,'N','o'},{3056,3058,'N','o'},{3192,3198,'N','o'},{3440,3445,'N','o'},{3882,3891,'N','o'},{4969,4988,'N','o'},{6128,6137,'N','o'},{6618,6618,'N','o'},{8304,8304,'N','o'},{8308,8313,'N','o'},
{8320,8329,'N','o'},{8528,8543,'N','o'},{8585,8585,'N','o'},{9312,9371,'N','o'},{9450,9471,'N','o'},{10102,10131,'N','o'},{11517,11517,'N','o'},{12690,12693,'N','o'},{12832,12841,'N','o'},{12881,12895,'N','o'},{12928,12937,'N','o'},{12977,12991,'N','o'},
{43056,43061,'N','o'},{65799,65843,'N','o'},{65909,65912,'N','o'},{65930,65930,'N','o'},{66336,66339,'N','o'},{67672,67679,'N','o'},{67862,67867,'N','o'},{68160,68167,'N','o'},{68221,68222,'N','o'},{68440,68447,'N','o'},{68472,68479,'N','o'},{69216,69246,'N','o'},
{69714,69733,'N','o'},{119648,119665,'N','o'},{127232,127242,'N','o'},{95,95,'P','c'},{8255,8256,'P','c'},{8276,8276,'P','c'},{65075,65076,'P','c'},{65101,65103,'P','c'},{65343,65343,'P','c'},{45,45,'P','d'},{1418,1418,'P','d'},{1470,1470,'P','d'},
{5120,5120,'P','d'},{6150,6150,'P','d'},{8208,8213,'P','d'},{11799,11799,'P','d'},{11802,11802,'P','d'},{12316,12316,'P','d'},{12336,12336,'P','d'},{12448,12448,'P','d'},{65073,65074,'P','d'},{65112,65112,'P','d'},{65123,65123,'P','d'},{65293,65293,'P','d'},
{41,41,'P','e'},{93,93,'P','e'},{125,125,'P','e'},{3899,3899,'P','e'},{3901,3901,'P','e'},{5788,5788,'P','e'},{8262,8262,'P','e'},{8318,8318,'P','e'},{8334,8334,'P','e'},{9002,9002,'P','e'},{10089,10089,'P','e'},{10091,10091,'P','e'},
{10093,10093,'P','e'},{10095,10095,'P','e'},{10097,10097,'P','e'},{10099,10099,'P','e'},{10101,10101,'P','e'},{10182,10182,'P','e'},{10215,10215,'P','e'},{10217,10217,'P','e'},{10219,10219,'P','e'},{10221,10221,'P','e'},{10223,10223,'P','e'},{10628,10628,'P','e'},
{10630,10630,'P','e'},{10632,10632,'P','e'},{10634,10634,'P','e'},{10636,10636,'P','e'},{10638,10638,'P','e'},{10640,10640,'P','e'},{10642,10642,'P','e'},{10644,10644,'P','e'},{10646,10646,'P','e'},{10648,10648,'P','e'},{10713,10713,'P','e'},{10715,10715,'P','e'},
{10749,10749,'P','e'},{11811,11811,'P','e'},{11813,11813,'P','e'},{11815,11815,'P','e'},{11817,11817,'P','e'},{12297,12297,'P','e'},{12299,12299,'P','e'},{12301,12301,'P','e'},{12303,12303,'P','e'},{12305,12305,'P','e'},{12309,12309,'P','e'},{12311,12311,'P','e'},
{12313,12313,'P','e'},{12315,12315,'P','e'},{12318,12319,'P','e'},{65048,65048,'P','e'},{65078,65078,'P','e'},{65080,65080,'P','e'},{65082,65082,'P','e'},{65084,65084,'P','e'},{65086,65086,'P','e'},{65088,65088,'P','e'},{65090,65090,'P','e'},{65092,65092,'P','e'},
{65096,65096,'P','e'},{65114,65114,'P','e'},{65116,65116,'P','e'},{65118,65118,'P','e'},{65289,65289,'P','e'},{65341,65341,'P','e'},{65373,65373,'P','e'},{65376,65376,'P','e'},{65379,65379,'P','e'},{187,187,'P','f'},{8217,8217,'P','f'},{8221,8221,'P','f'},
{8250,8250,'P','f'},{11779,11779,'P','f'},{11781,11781,'P','f'},{11786,11786,'P','f'},{11789,11789,'P','f'},{11805,11805,'P','f'},{11809,11809,'P','f'},{171,171,'P','i'},{8216,8216,'P','i'},{8219,8220,'P','i'},{8223,8223,'P','i'},{8249,8249,'P','i'},
{11778,11778,'P','i'},{11780,11780,'P','i'},{11785,11785,'P','i'},{11788,11788,'P','i'},{11804,11804,'P','i'},{11808,11808,'P','i'},{33,35,'P','o'},{37,39,'P','o'},{42,42,'P','o'},{44,44,'P','o'},{46,47,'P','o'},{58,59,'P','o'},
{63,64,'P','o'},{92,92,'P','o'},{161,161,'P','o'},{183,183,'P','o'},{191,191,'P','o'},{894,894,'P','o'},{903,903,'P','o'},{1370,1375,'P','o'},{1417,1417,'P','o'},{1472,1472,'P','o'},{1475,1475,'P','o'},{1478,1478,'P','o'},
{1523,1524,'P','o'},{1545,1546,'P','o'},{1548,1549,'P','o'},{1563,1563,'P','o'},{1566,1567,'P','o'},{1642,1645,'P','o'},{1748,1748,'P','o'},{1792,1805,'P','o'},{2039,2041,'P','o'},{2096,2110,'P','o'},{2142,2142,'P','o'},{2404,2405,'P','o'},
{2416,2416,'P','o'},{3572,3572,'P','o'},{3663,3663,'P','o'},{3674,3675,'P','o'},{3844,3858,'P','o'},{3973,3973,'P','o'},{4048,4052,'P','o'},{4057,4058,'P','o'},{4170,4175,'P','o'},{4347,4347,'P','o'},{4961,4968,'P','o'},{5742,5742,'P','o'},
{5867,5869,'P','o'},{5941,5942,'P','o'},{6100,6102,'P','o'},{6104,6106,'P','o'},{6144,6149,'P','o'},{6151,6154,'P','o'},{6468,6469,'P','o'},{6686,6687,'P','o'},{6816,6822,'P','o'},{6824,6829,'P','o'},{7002,7008,'P','o'},{7164,7167,'P','o'},
{7227,7231,'P','o'},{7294,7295,'P','o'},{7379,7379,'P','o'},{8214,8215,'P','o'},{8224,8231,'P','o'},{8240,8248,'P','o'},{8251,8254,'P','o'},{8257,8259,'P','o'},{8263,8273,'P','o'},{8275,8275,'P','o'},{8277,8286,'P','o'},{11513,11516,'P','o'},
{11518,11519,'P','o'},{11632,11632,'P','o'},{11776,11777,'P','o'},{11782,11784,'P','o'},{11787,11787,'P','o'},{11790,11798,'P','o'},{11800,11801,'P','o'},{11803,11803,'P','o'},{11806,11807,'P','o'},{11818,11822,'P','o'},{11824,11825,'P','o'},{12289,12291,'P','o'},
{12349,12349,'P','o'},{12539,12539,'P','o'},{42238,42239,'P','o'},{42509,42511,'P','o'},{42611,42611,'P','o'},{42622,42622,'P','o'},{42738,42743,'P','o'},{43124,43127,'P','o'},{43214,43215,'P','o'},{43256,43258,'P','o'},{43310,43311,'P','o'},{43359,43359,'P','o'},
{43457,43469,'P','o'},{43486,43487,'P','o'},{43612,43615,'P','o'},{43742,43743,'P','o'},{44011,44011,'P','o'},{65040,65046,'P','o'},{65049,65049,'P','o'},{65072,65072,'P','o'},{65093,65094,'P','o'},{65097,65100,'P','o'},{65104,65106,'P','o'},{65108,65111,'P','o'},
{65119,65121,'P','o'},{65128,65128,'P','o'},{65130,65131,'P','o'},{65281,65283,'P','o'},{65285,65287,'P','o'},{65290,65290,'P','o'},{65292,65292,'P','o'},{65294,65295,'P','o'},{65306,65307,'P','o'},{65311,65312,'P','o'},{65340,65340,'P','o'},{65377,65377,'P','o'},
{65380,65381,'P','o'},{65792,65793,'P','o'},{66463,66463,'P','o'},{66512,66512,'P','o'},{67671,67671,'P','o'},{67871,67871,'P','o'},{67903,67903,'P','o'},{68176,68184,'P','o'},{68223,68223,'P','o'},{68409,68415,'P','o'},{69703,69709,'P','o'},{69819,69820,'P','o'},
{69822,69825,'P','o'},{74864,74867,'P','o'},{40,40,'P','s'},{91,91,'P','s'},{123,123,'P','s'},{3898,3898,'P','s'},{3900,3900,'P','s'},{5787,5787,'P','s'},{8218,8218,'P','s'},{8222,8222,'P','s'},{8261,8261,'P','s'},{8317,8317,'P','s'},
{8333,8333,'P','s'},{9001,9001,'P','s'},{10088,10088,'P','s'},{10090,10090,'P','s'},{10092,10092,'P','s'},{10094,10094,'P','s'},{10096,10096,'P','s'},{10098,10098,'P','s'},{10100,10100,'P','s'},{10181,10181,'P','s'},{10214,10214,'P','s'},{10216,10216,'P','s'},
{10218,10218,'P','s'},{10220,10220,'P','s'},{10222,10222,'P','s'},{10627,10627,'P','s'},{10629,10629,'P','s'},{10631,10631,'P','s'},{10633,10633,'P','s'},{10635,10635,'P','s'},{10637,10637,'P','s'},{10639,10639,'P','s'},{10641,10641,'P','s'},{10643,10643,'P','s'},
{10645,10645,'P','s'},{10647,10647,'P','s'},{10712,10712,'P','s'},{10714,10714,'P','s'},{10748,10748,'P','s'},{11810,11810,'P','s'},{11812,11812,'P','s'},{11814,11814,'P','s'},{11816,11816,'P','s'},{12296,12296,'P','s'},{12298,12298,'P','s'},{12300,12300,'P','s'},
{12302,12302,'P','s'},{12304,12304,'P','s'},{12308,12308,'P','s'},{12310,12310,'P','s'},{12312,12312,'P','s'},{12314,12314,'P','s'},{12317,12317,'P','s'},{65047,65047,'P','s'},{65077,65077,'P','s'},{65079,65079,'P','s'},{65081,65081,'P','s'},{65083,65083,'P','s'},
{65085,65085,'P','s'},{65087,65087,'P','s'},{65089,65089,'P','s'},{65091,65091,'P','s'},{65095,65095,'P','s'},{65113,65113,'P','s'},{65115,65115,'P','s'},{65117,65117,'P','s'},{65288,65288,'P','s'},{65339,65339,'P','s'},{65371,65371,'P','s'},{65375,65375,'P','s'},
{65378,65378,'P','s'},{36,36,'S','c'},{162,165,'S','c'},{1547,1547,'S','c'},{2546,2547,'S','c'},{2555,2555,'S','c'},{2801,2801,'S','c'},{3065,3065,'S','c'},{3647,3647,'S','c'},{6107,6107,'S','c'},{8352,8377,'S','c'},{43064,43064,'S','c'},
{65020,65020,'S','c'},{65129,65129,'S','c'},{65284,65284,'S','c'},{65504,65505,'S','c'},{65509,65510,'S','c'},{94,94,'S','k'},{96,96,'S','k'},{168,168,'S','k'},{175,175,'S','k'},{180,180,'S','k'},{184,184,'S','k'},{706,709,'S','k'},
{722,735,'S','k'},{741,747,'S','k'},{749,749,'S','k'},{751,767,'S','k'},{885,885,'S','k'},{900,901,'S','k'},{8125,8125,'S','k'},{8127,8129,'S','k'},{8141,8143,'S','k'},{8157,8159,'S','k'},{8173,8175,'S','k'},{8189,8190,'S','k'},
{12443,12444,'S','k'},{42752,42774,'S','k'},{42784,42785,'S','k'},{42889,42890,'S','k'},{64434,64449,'S','k'},{65342,65342,'S','k'},{65344,65344,'S','k'},{65507,65507,'S','k'},{43,43,'S','m'},{60,62,'S','m'},{124,124,'S','m'},{126,126,'S','m'},
{172,172,'S','m'},{177,177,'S','m'},{215,215,'S','m'},{247,247,'S','m'},{1014,1014,'S','m'},{1542,1544,'S','m'},{8260,8260,'S','m'},{8274,8274,'S','m'},{8314,8316,'S','m'},{8330,8332,'S','m'},{8472,8472,'S','m'},{8512,8516,'S','m'},
{8523,8523,'S','m'},{8592,8596,'S','m'},{8602,8603,'S','m'},{8608,8608,'S','m'},{8611,8611,'S','m'},{8614,8614,'S','m'},{8622,8622,'S','m'},{8654,8655,'S','m'},{8658,8658,'S','m'},{8660,8660,'S','m'},{8692,8959,'S','m'},{8992,8993,'S','m'},
{9084,9084,'S','m'},{9115,9139,'S','m'},{9180,9185,'S','m'},{9655,9655,'S','m'},{9665,9665,'S','m'},{9720,9727,'S','m'},{9839,9839,'S','m'},{10176,10180,'S','m'},{10183,10186,'S','m'},{10188,10188,'S','m'},{10190,10213,'S','m'},{10224,10239,'S','m'},
{10496,10626,'S','m'},{10649,10711,'S','m'},{10716,10747,'S','m'},{10750,11007,'S','m'},{11056,11076,'S','m'},{11079,11084,'S','m'},{64297,64297,'S','m'},{65122,65122,'S','m'},{65124,65126,'S','m'},{65291,65291,'S','m'},{65308,65310,'S','m'},{65372,65372,'S','m'},
{65374,65374,'S','m'},{65506,65506,'S','m'},{65513,65516,'S','m'},{120513,120513,'S','m'},{120539,120539,'S','m'},{120571,120571,'S','m'},{120597,120597,'S','m'},{120629,120629,'S','m'},{120655,120655,'S','m'},{120687,120687,'S','m'},{120713,120713,'S','m'},{120745,120745,'S','m'},
{120771,120771,'S','m'},{166,166,'S','o'},{169,169,'S','o'},{174,174,'S','o'},{176,176,'S','o'},{1154,1154,'S','o'},{1550,1551,'S','o'},{1758,1758,'S','o'},{1769,1769,'S','o'},{1789,1790,'S','o'},{2038,2038,'S','o'},{2554,2554,'S','o'},
{2928,2928,'S','o'},{3059,3064,'S','o'},{3066,3066,'S','o'},{3199,3199,'S','o'},{3449,3449,'S','o'},{3841,3843,'S','o'},{3859,3859,'S','o'},{3861,3863,'S','o'},{3866,3871,'S','o'},{3892,3892,'S','o'},{3894,3894,'S','o'},{3896,3896,'S','o'},
{4030,4037,'S','o'},{4039,4044,'S','o'},{4046,4047,'S','o'},{4053,4056,'S','o'},{4254,4255,'S','o'},{5008,5017,'S','o'},{6464,6464,'S','o'},{6622,6655,'S','o'},{7009,7018,'S','o'},{7028,7036,'S','o'},{8448,8449,'S','o'},{8451,8454,'S','o'},
{8456,8457,'S','o'},{8468,8468,'S','o'},{8470,8471,'S','o'},{8478,8483,'S','o'},{8485,8485,'S','o'},{8487,8487,'S','o'},{8489,8489,'S','o'},{8494,8494,'S','o'},{8506,8507,'S','o'},{8522,8522,'S','o'},{8524,8525,'S','o'},{8527,8527,'S','o'},
{8597,8601,'S','o'},{8604,8607,'S','o'},{8609,8610,'S','o'},{8612,8613,'S','o'},{8615,8621,'S','o'},{8623,8653,'S','o'},{8656,8657,'S','o'},{8659,8659,'S','o'},{8661,8691,'S','o'},{8960,8967,'S','o'},{8972,8991,'S','o'},{8994,9000,'S','o'},
{9003,9083,'S','o'},{9085,9114,'S','o'},{9140,9179,'S','o'},{9186,9203,'S','o'},{9216,9254,'S','o'},{9280,9290,'S','o'},{9372,9449,'S','o'},{9472,9654,'S','o'},{9656,9664,'S','o'},{9666,9719,'S','o'},{9728,9838,'S','o'},{9840,9983,'S','o'},
{9985,10087,'S','o'},{10132,10175,'S','o'},{10240,10495,'S','o'},{11008,11055,'S','o'},{11077,11078,'S','o'},{11088,11097,'S','o'},{11493,11498,'S','o'},{11904,11929,'S','o'},{11931,12019,'S','o'},{12032,12245,'S','o'},{12272,12283,'S','o'},{12292,12292,'S','o'},
{12306,12307,'S','o'},{12320,12320,'S','o'},{12342,12343,'S','o'},{12350,12351,'S','o'},{12688,12689,'S','o'},{12694,12703,'S','o'},{12736,12771,'S','o'},{12800,12830,'S','o'},{12842,12871,'S','o'},{12880,12880,'S','o'},{12896,12927,'S','o'},{12938,12976,'S','o'},
{12992,13054,'S','o'},{13056,13311,'S','o'},{19904,19967,'S','o'},{42128,42182,'S','o'},{43048,43051,'S','o'},{43062,43063,'S','o'},{43065,43065,'S','o'},{43639,43641,'S','o'},{65021,65021,'S','o'},{65508,65508,'S','o'},{65512,65512,'S','o'},{65517,65518,'S','o'},
{65532,65533,'S','o'},{65847,65855,'S','o'},{65913,65929,'S','o'},{65936,65947,'S','o'},{66000,66044,'S','o'},{118784,119029,'S','o'},{119040,119078,'S','o'},{119081,119140,'S','o'},{119146,119148,'S','o'},{119171,119172,'S','o'},{119180,119209,'S','o'},{119214,119261,'S','o'},
{119296,119361,'S','o'},{119365,119365,'S','o'},{119552,119638,'S','o'},{126976,127019,'S','o'},{127024,127123,'S','o'},{127136,127150,'S','o'},{127153,127166,'S','o'},{127169,127183,'S','o'},{127185,127199,'S','o'},{127248,127278,'S','o'},{127280,127337,'S','o'},{127344,127386,'S','o'},
{127462,127490,'S','o'},{127504,127546,'S','o'},{127552,127560,'S','o'},{127568,127569,'S','o'},{127744,127776,'S','o'},{127792,127797,'S','o'},{127799,127868,'S','o'},{127872,127891,'S','o'},{127904,127940,'S','o'},{127942,127946,'S','o'},{127968,127984,'S','o'},{128000,128062,'S','o'},
{128064,128064,'S','o'},{128066,128247,'S','o'},{128249,128252,'S','o'},{128256,128317,'S','o'},{128336,128359,'S','o'},{128507,128511,'S','o'},{128513,128528,'S','o'},{128530,128532,'S','o'},{128534,128534,'S','o'},{128536,128536,'S','o'},{128538,128538,'S','o'},{128540,128542,'S','o'},
{128544,128549,'S','o'},{128552,128555,'S','o'},{128557,128557,'S','o'},{128560,128563,'S','o'},{128565,128576,'S','o'},{128581,128591,'S','o'},{128640,128709,'S','o'},{128768,128883,'S','o'},{8232,8232,'Z','l'},{8233,8233,'Z','p'},{32,32,'Z','s'},{160,160,'Z','s'},
{5760,5760,'Z','s'},{8192,8202,'Z','s'},{8239,8239,'Z','s'},{8287,8287,'Z','s'},{12288,12288,'Z','s'},};
static const int ucdUnsure[][2] = {
{167,167},{170,170},{182,182},{186,186},{895,895},{1320,1327},{1376,1376},{1416,1416},{1421,1423},{1519,1519},{1540,1541},{1564,1565},{2045,2047},{2144,2154},{2160,2190},{2192,2193},{2200,2303},{2424,2424},{2432,2432},{2556,2558},{2678,2678},{2800,2800},{2809,2815},{2901,2901},{3072,3072},{3076,3076},{3124,3124},{3132,3132},{3162,3162},{3165,3165},{3191,3191},{3200,3201},{3204,3204},{3293,3293},{3315,3315},{3328,3329},{3332,3332},{3387,3388},{3407,3407},{3412,3414},{3416,3423},{3446,3448},{3457,3457},{3558,3567},{3718,3718},{3721,3721},{3724,3724},{3726,3731},{3736,3736},{3744,3744},{3752,3753},{3756,3756},{3770,3770},{3790,3790},{3806,3807},{3860,3860},{4295,4295},{4301,4301},{4304,4346},{4349,4351},{4960,4960},{5024,5109},{5112,5117},{5741,5741},{5873,5880},{5901,5901},{5909,5909},{5919,5919},{5940,5940},{6068,6069},{6158,6159},{6264,6264},{6277,6278},{6429,6430},{6576,6592},{6600,6601},{6683,6683},{6832,6862},{6988,6988},{7037,7038},{7083,7085},{7098,7103},{7296,7304},{7312,7354},{7357,7367},{7410,7418},{7522,7530},{7655,7675},{8294,8297},{8378,8384},{8586,8587},{8968,8971},{9204,9215},{9984,9984},{10187,10187},{10189,10189},{11085,11087},{11098,11123},{11126,11157},{11159,11263},{11311,11311},{11359,11359},{11388,11388},{11506,11507},{11559,11559},{11565,11565},{11622,11623},{11826,11869},{12334,12335},{12590,12591},{12731,12735},{12872,12879},{13055,13055},{19894,19903},{40908,40959},{42612,42619},{42648,42655},{42895,42895},{42898,42911},{42922,42954},{42960,42961},{42963,42963},{42965,42969},{42994,43001},{43052,43052},{43205,43205},{43260,43263},{43453,43453},{43488,43518},{43644,43647},{43744,43766},{43824,43883},{43888,43967},{64046,64047},{64450,64450},{64830,64847},{64975,64975},{65022,65023},{65063,65071},{65794,65794},{65931,65934},{65948,65948},{65952,65952},{66272,66299},{66335,66335},{66349,66351},{66384,66426},{66736,66771},{66776,66811},{66816,66855},{66864,66915},{66927,66938},{66940,66954},{66956,66962},{66964,66965},{66967,66977},{66979,66993},{66995,67001},{67003,67004},{67072,67382},{67392,67413},{67424,67431},{67456,67461},{67463,67504},{67506,67514},{67680,67742},{67751,67759},{67808,67826},{67828,67829},{67835,67839},{67968,68023},{68028,68047},{68050,68095},{68148,68149},{68168,68168},{68224,68255},{68288,68326},{68331,68342},{68480,68497},{68505,68508},{68521,68527},{68736,68786},{68800,68850},{68858,68903},{68912,68921},{69248,69289},{69291,69293},{69296,69297},{69373,69415},{69424,69465},{69488,69513},{69552,69579},{69600,69622},{69744,69749},{69759,69759},{69826,69826},{69837,69837},{69840,69864},{69872,69881},{69888,69940},{69942,69959},{69968,70006},{70016,70111},{70113,70132},{70144,70161},{70163,70209},{70272,70278},{70280,70280},{70282,70285},{70287,70301},{70303,70313},{70320,70378},{70384,70393},{70400,70403},{70405,70412},{70415,70416},{70419,70440},{70442,70448},{70450,70451},{70453,70457},{70459,70468},{70471,70472},{70475,70477},{70480,70480},{70487,70487},{70493,70499},{70502,70508},{70512,70516},{70656,70747},{70749,70753},{70784,70855},{70864,70873},{71040,71093},{71096,71133},{71168,71236},{71248,71257},{71264,71276},{71296,71353},{71360,71369},{71424,71450},{71453,71467},{71472,71494},{71680,71739},{71840,71922},{71935,71942},{71945,71945},{71948,71955},{71957,71958},{71960,71989},{71991,71992},{71995,72006},{72016,72025},{72096,72103},{72106,72151},{72154,72164},{72192,72263},{72272,72354},{72368,72440},{72448,72457},{72704,72712},{72714,72758},{72760,72773},{72784,72812},{72816,72847},{72850,72871},{72873,72886},{72960,72966},{72968,72969},{72971,73014},{73018,73018},{73020,73021},{73023,73031},{73040,73049},{73056,73061},{73063,73064},{73066,73102},{73104,73105},{73107,73112},{73120,73129},{73440,73464},{73472,73488},{73490,73530},{73534,73561},{73648,73648},{73664,73713},{73727,73727},{74607,74649},{74851,74862},{74868,74868},{74880,75075},{77712,77810},{78895,78933},{82944,83526},{92736,92766},{92768,92777},{92782,92862},{92864,92873},{92880,92909},{92912,92917},{92928,92997},{93008,93017},{93019,93025},{93027,93047},{93053,93071},{93760,93850},{93952,94026},{94031,94087},{94095,94111},{94176,94180},{94192,94193},{94208,100343},{100352,101589},{101632,101640},{110576,110579},{110581,110587},{110589,110590},{110594,110882},{110898,110898},{110928,110930},{110933,110933},{110948,110951},{110960,111355},{113664,113770},{113776,113788},{113792,113800},{113808,113817},{113820,113827},{118528,118573},{118576,118598},{118608,118723},{119262,119274},{119488,119507},{119520,119539},{119666,119672},{120832,121483},{121499,121503},{121505,121519},{122624,122654},{122661,122666},{122880,122886},{122888,122904},{122907,122913},{122915,122916},{122918,122922},{122928,122989},{123023,123023},{123136,123180},{123184,123197},{123200,123209},{123214,123215},{123536,123566},{123584,123641},{123647,123647},{124112,124153},{124896,124902},{124904,124907},{124909,124910},{124912,124926},{124928,125124},{125127,125142},{125184,125259},{125264,125273},{125278,125279},{126065,126132},{126209,126269},{126464,126467},{126469,126495},{126497,126498},{126500,126500},{126503,126503},{126505,126514},{126516,126519},{126521,126521},{126523,126523},{126530,126530},{126535,126535},{126537,126537},{126539,126539},{126541,126543},{126545,126546},{126548,126548},{126551,126551},{126553,126553},{126555,126555},{126557,126557},{126559,126559},{126561,126562},{126564,126564},{126567,126570},{126572,126578},{126580,126583},{126585,126588},{126590,126590},{126592,126601},{126603,126619},{126625,126627},{126629,126633},{126635,126651},{126704,126705},{127167,127167},{127200,127221},{127243,127247},{127279,127279},{127338,127343},{127387,127405},{127547,127547},{127584,127589},{127777,127791},{127798,127798},{127869,127871},{127892,127903},{127941,127941},{127947,127967},{127985,127999},{128063,128063},{128065,128065},{128248,128248},{128253,128255},{128318,128335},{128360,128506},{128512,128512},{128529,128529},{128533,128533},{128535,128535},{128537,128537},{128539,128539},{128543,128543},{128550,128551},{128556,128556},{128558,128559},{128564,128564},{128577,128580},{128592,128639},{128710,128727},{128732,128748},{128752,128764},{128884,128886},{128891,128985},{128992,129003},{129008,129008},{129024,129035},{129040,129095},{129104,129113},{129120,129159},{129168,129197},{129200,129201},{129280,129619},{129632,129645},{129648,129660},{129664,129672},{129680,129725},{129727,129733},{129742,129755},{129760,129768},{129776,129784},{129792,129938},{129940,129994},{130032,130041},{173783,173791},{177973,177977},{178208,183969},{183984,191456},{196608,201546},{201552,205743}};
static const int ucdOdd[][2] = {
{105,105},{304,304},{604,604},{609,609},{614,614},{618,618},{620,620},{642,642},{647,647},{669,670},{895,895},{1011,1011},{1042,1042},{1044,1044},{1054,1054},{1057,1058},{1066,1066},{1122,1122},{1320,1327},{4295,4295},{4301,4301},{4304,4346},{4349,4351},{5024,5109},{5112,5117},{7296,7304},{7312,7354},{7357,7359},{7566,7566},{8064,8111},{8115,8115},{8124,8124},{8131,8131},{8140,8140},{8179,8179},{8188,8188},{11311,11311},{11359,11359},{11506,11507},{11559,11559},{11565,11565},{42570,42570},{42648,42651},{42898,42900},{42902,42911},{42922,42926},{42928,42954},{42960,42961},{42966,42969},{42997,42998},{43859,43859},{43888,43967},{66736,66771},{66776,66811},{66928,66938},{66940,66954},{66956,66962},{66964,66965},{66967,66977},{66979,66993},{66995,67001},{67003,67004},{68736,68786},{68800,68850},{71840,71903},{93760,93823},{125184,125251}};
static const int ucdUpper[][3] = {
{97,122,65},{181,181,924},{224,246,192},{248,254,216},{255,255,376},{257,257,256},{259,259,258},{261,261,260},{263,263,262},{265,265,264},{267,267,266},{269,269,268},{271,271,270},{273,273,272},{275,275,274},{277,277,276},{279,279,278},{281,281,280},{283,283,282},{285,285,284},{287,287,286},{289,289,288},{291,291,290},{293,293,292},{295,295,294},{297,297,296},{299,299,298},{301,301,300},{303,303,302},{305,305,73},{307,307,306},{309,309,308},{311,311,310},{314,314,313},{316,316,315},{318,318,317},{320,320,319},{322,322,321},{324,324,323},{326,326,325},{328,328,327},{331,331,330},{333,333,332},{335,335,334},{337,337,336},{339,339,338},{341,341,340},{343,343,342},{345,345,344},{347,347,346},{349,349,348},{351,351,350},{353,353,352},{355,355,354},{357,357,356},{359,359,358},{361,361,360},{363,363,362},{365,365,364},{367,367,366},{369,369,368},{371,371,370},{373,373,372},{375,375,374},{378,378,377},{380,380,379},{382,382,381},{383,383,83},{384,384,579},{387,387,386},{389,389,388},{392,392,391},{396,396,395},{402,402,401},{405,405,502},{409,409,408},{410,410,573},{414,414,544},{417,417,416},{419,419,418},{421,421,420},{424,424,423},{429,429,428},{432,432,431},{436,436,435},{438,438,437},{441,441,440},{445,445,444},{447,447,503},{453,453,452},{454,454,452},{456,456,455},{457,457,455},{459,459,458},{460,460,458},{462,462,461},{464,464,463},{466,466,465},{468,468,467},{470,470,469},{472,472,471},{474,474,473},{476,476,475},{477,477,398},{479,479,478},{481,481,480},{483,483,482},{485,485,484},{487,487,486},{489,489,488},{491,491,490},{493,493,492},{495,495,494},{498,498,497},{499,499,497},{501,501,500},{505,505,504},{507,507,506},{509,509,508},{511,511,510},{513,513,512},{515,515,514},{517,517,516},{519,519,518},{521,521,520},{523,523,522},{525,525,524},{527,527,526},{529,529,528},{531,531,530},{533,533,532},{535,535,534},{537,537,536},{539,539,538},{541,541,540},{543,543,542},{547,547,546},{549,549,548},{551,551,550},{553,553,552},{555,555,554},{557,557,556},{559,559,558},{561,561,560},{563,563,562},{572,572,571},{575,576,11390},{578,578,577},{583,583,582},{585,585,584},{587,587,586},{589,589,588},{591,591,590},{592,592,11375},{593,593,11373},{594,594,11376},{595,595,385},{596,596,390},{598,599,393},{601,601,399},{603,603,400},{608,608,403},{611,611,404},{613,613,42893},{616,616,407},{617,617,406},{619,619,11362},{623,623,412},{625,625,11374},{626,626,413},{629,629,415},{637,637,11364},{640,640,422},{643,643,425},{648,648,430},{649,649,580},{650,651,433},{652,652,581},{658,658,439},{837,837,921},{881,881,880},{883,883,882},{887,887,886},{891,893,1021},{940,940,902},{941,943,904},{945,961,913},{962,962,931},{963,971,931},{972,972,908},{973,974,910},{976,976,914},{977,977,920},{981,981,934},{982,982,928},{983,983,975},{985,985,984},{987,987,986},{989,989,988},{991,991,990},{993,993,992},{995,995,994},{997,997,996},{999,999,998},{1001,1001,1000},{1003,1003,1002},{1005,1005,1004},{1007,1007,1006},{1008,1008,922},{1009,1009,929},{1010,1010,1017},{1013,1013,917},{1016,1016,1015},{1019,1019,1018},{1072,1103,1040},{1104,1119,1024},{1121,1121,1120},{1123,1123,1122},{1125,1125,1124},{1127,1127,1126},{1129,1129,1128},{1131,1131,1130},{1133,1133,1132},{1135,1135,1134},{1137,1137,1136},{1139,1139,1138},{1141,1141,1140},{1143,1143,1142},{1145,1145,1144},{1147,1147,1146},{1149,1149,1148},{1151,1151,1150},{1153,1153,1152},{1163,1163,1162},{1165,1165,1164},{1167,1167,1166},{1169,1169,1168},{1171,1171,1170},{1173,1173,1172},{1175,1175,1174},{1177,1177,1176},{1179,1179,1178},{1181,1181,1180},{1183,1183,1182},{1185,1185,1184},{1187,1187,1186},{1189,1189,1188},{1191,1191,1190},{1193,1193,1192},{1195,1195,1194},{1197,1197,1196},{1199,1199,1198},{1201,1201,1200},{1203,1203,1202},{1205,1205,1204},{1207,1207,1206},{1209,1209,1208},{1211,1211,1210},{1213,1213,1212},{1215,1215,1214},{1218,1218,1217},{1220,1220,1219},{1222,1222,1221},{1224,1224,1223},{1226,1226,1225},{1228,1228,1227},{1230,1230,1229},{1231,1231,1216},{1233,1233,1232},{1235,1235,1234},{1237,1237,1236},{1239,1239,1238},{1241,1241,1240},{1243,1243,1242},{1245,1245,1244},{1247,1247,1246},{1249,1249,1248},{1251,1251,1250},{1253,1253,1252},{1255,1255,1254},{1257,1257,1256},{1259,1259,1258},{1261,1261,1260},{1263,1263,1262},{1265,1265,1264},{1267,1267,1266},{1269,1269,1268},{1271,1271,1270},{1273,1273,1272},{1275,1275,1274},{1277,1277,1276},{1279,1279,1278},{1281,1281,1280},{1283,1283,1282},{1285,1285,1284},{1287,1287,1286},{1289,1289,1288},{1291,1291,1290},{1293,1293,1292},{1295,1295,1294},{1297,1297,1296},{1299,1299,1298},{1301,1301,1300},{1303,1303,1302},{1305,1305,1304},{1307,1307,1306},{1309,1309,1308},{1311,1311,1310},{1313,1313,1312},{1315,1315,1314},{1317,1317,1316},{1319,1319,1318},{1377,1414,1329},{7545,7545,42877},{7549,7549,11363},{7681,7681,7680},{7683,7683,7682},{7685,7685,7684},{7687,7687,7686},{7689,7689,7688},{7691,7691,7690},{7693,7693,7692},{7695,7695,7694},{7697,7697,7696},{7699,7699,7698},{7701,7701,7700},{7703,7703,7702},{7705,7705,7704},{7707,7707,7706},{7709,7709,7708},{7711,7711,7710},{7713,7713,7712},{7715,7715,7714},{7717,7717,7716},{7719,7719,7718},{7721,7721,7720},{7723,7723,7722},{7725,7725,7724},{7727,7727,7726},{7729,7729,7728},{7731,7731,7730},{7733,7733,7732},{7735,7735,7734},{7737,7737,7736},{7739,7739,7738},{7741,7741,7740},{7743,7743,7742},{7745,7745,7744},{7747,7747,7746},{7749,7749,7748},{7751,7751,7750},{7753,7753,7752},{7755,7755,7754},{7757,7757,7756},{7759,7759,7758},{7761,7761,7760},{7763,7763,7762},{7765,7765,7764},{7767,7767,7766},{7769,7769,7768},{7771,7771,7770},{7773,7773,7772},{7775,7775,7774},{7777,7777,7776},{7779,7779,7778},{7781,7781,7780},{7783,7783,7782},{7785,7785,7784},{7787,7787,7786},{7789,7789,7788},{7791,7791,7790},{7793,7793,7792},{7795,7795,7794},{7797,7797,7796},{7799,7799,7798},{7801,7801,7800},{7803,7803,7802},{7805,7805,7804},{7807,7807,7806},{7809,7809,7808},{7811,7811,7810},{7813,7813,7812},{7815,7815,7814},{7817,7817,7816},{7819,7819,7818},{7821,7821,7820},{7823,7823,7822},{7825,7825,7824},{7827,7827,7826},{7829,7829,7828},{7835,7835,7776},{7841,7841,7840},{7843,7843,7842},{7845,7845,7844},{7847,7847,7846},{7849,7849,7848},{7851,7851,7850},{7853,7853,7852},{7855,7855,7854},{7857,7857,7856},{7859,7859,7858},{7861,7861,7860},{7863,7863,7862},{7865,7865,7864},{7867,7867,7866},{7869,7869,7868},{7871,7871,7870},{7873,7873,7872},{7875,7875,7874},{7877,7877,7876},{7879,7879,7878},{7881,7881,7880},{7883,7883,7882},{7885,7885,7884},{7887,7887,7886},{7889,7889,7888},{7891,7891,7890},{7893,7893,7892},{7895,7895,7894},{7897,7897,7896},{7899,7899,7898},{7901,7901,7900},{7903,7903,7902},{7905,7905,7904},{7907,7907,7906},{7909,7909,7908},{7911,7911,7910},{7913,7913,7912},{7915,7915,7914},{7917,7917,7916},{7919,7919,7918},{7921,7921,7920},{7923,7923,7922},{7925,7925,7924},{7927,7927,7926},{7929,7929,7928},{7931,7931,7930},{7933,7933,7932},{7935,7935,7934},{7936,7943,7944},{7952,7957,7960},{7968,7975,7976},{7984,7991,7992},{8000,8005,8008},{8017,8017,8025},{8019,8019,8027},{8021,8021,8029},{8023,8023,8031},{8032,8039,8040},{8048,8049,8122},{8050,8053,8136},{8054,8055,8154},{8056,8057,8184},{8058,8059,8170},{8060,8061,8186},{8112,8113,8120},{8126,8126,921},{8144,8145,8152},{8160,8161,8168},{8165,8165,8172},{8526,8526,8498},{8560,8575,8544},{8580,8580,8579},{9424,9449,9398},{11312,11358,11264},{11361,11361,11360},{11365,11365,570},{11366,11366,574},{11368,11368,11367},{11370,11370,11369},{11372,11372,11371},{11379,11379,11378},{11382,11382,11381},{11393,11393,11392},{11395,11395,11394},{11397,11397,11396},{11399,11399,11398},{11401,11401,11400},{11403,11403,11402},{11405,11405,11404},{11407,11407,11406},{11409,11409,11408},{11411,11411,11410},{11413,11413,11412},{11415,11415,11414},{11417,11417,11416},{11419,11419,11418},{11421,11421,11420},{11423,11423,11422},{11425,11425,11424},{11427,11427,11426},{11429,11429,11428},{11431,11431,11430},{11433,11433,11432},{11435,11435,11434},{11437,11437,11436},{11439,11439,11438},{11441,11441,11440},{11443,11443,11442},{11445,11445,11444},{11447,11447,11446},{11449,11449,11448},{11451,11451,11450},{11453,11453,11452},{11455,11455,11454},{11457,11457,11456},{11459,11459,11458},{11461,11461,11460},{11463,11463,11462},{11465,11465,11464},{11467,11467,11466},{11469,11469,11468},{11471,11471,11470},{11473,11473,11472},{11475,11475,11474},{11477,11477,11476},{11479,11479,11478},{11481,11481,11480},{11483,11483,11482},{11485,11485,11484},{11487,11487,11486},{11489,11489,11488},{11491,11491,11490},{11500,11500,11499},{11502,11502,11501},{11520,11557,4256},{42561,42561,42560},{42563,42563,42562},{42565,42565,42564},{42567,42567,42566},{42569,42569,42568},{42571,42571,42570},{42573,42573,42572},{42575,42575,42574},{42577,42577,42576},{42579,42579,42578},{42581,42581,42580},{42583,42583,42582},{42585,42585,42584},{42587,42587,42586},{42589,42589,42588},{42591,42591,42590},{42593,42593,42592},{42595,42595,42594},{42597,42597,42596},{42599,42599,42598},{42601,42601,42600},{42603,42603,42602},{42605,42605,42604},{42625,42625,42624},{42627,42627,42626},{42629,42629,42628},{42631,42631,42630},{42633,42633,42632},{42635,42635,42634},{42637,42637,42636},{42639,42639,42638},{42641,42641,42640},{42643,42643,42642},{42645,42645,42644},{42647,42647,42646},{42787,42787,42786},{42789,42789,42788},{42791,42791,42790},{42793,42793,42792},{42795,42795,42794},{42797,42797,42796},{42799,42799,42798},{42803,42803,42802},{42805,42805,42804},{42807,42807,42806},{42809,42809,42808},{42811,42811,42810},{42813,42813,42812},{42815,42815,42814},{42817,42817,42816},{42819,42819,42818},{42821,42821,42820},{42823,42823,42822},{42825,42825,42824},{42827,42827,42826},{42829,42829,42828},{42831,42831,42830},{42833,42833,42832},{42835,42835,42834},{42837,42837,42836},{42839,42839,42838},{42841,42841,42840},{42843,42843,42842},{42845,42845,42844},{42847,42847,42846},{42849,42849,42848},{42851,42851,42850},{42853,42853,42852},{42855,42855,42854},{42857,42857,42856},{42859,42859,42858},{42861,42861,42860},{42863,42863,42862},{42874,42874,42873},{42876,42876,42875},{42879,42879,42878},{42881,42881,42880},{42883,42883,42882},{42885,42885,42884},{42887,42887,42886},{42892,42892,42891},{42897,42897,42896},{42913,42913,42912},{42915,42915,42914},{42917,42917,42916},{42919,42919,42918},{42921,42921,42920},{65345,65370,65313},{66600,66639,66560}};
static const int ucdLower[][3] = {
{65,90,97},{192,214,224},{216,222,248},{256,256,257},{258,258,259},{260,260,261},{262,262,263},{264,264,265},{266,266,267},{268,268,269},{270,270,271},{272,272,273},{274,274,275},{276,276,277},{278,278,279},{280,280,281},{282,282,283},{284,284,285},{286,286,287},{288,288,289},{290,290,291},{292,292,293},{294,294,295},{296,296,297},{298,298,299},{300,300,301},{302,302,303},{306,306,307},{308,308,309},{310,310,311},{313,313,314},{315,315,316},{317,317,318},{319,319,320},{321,321,322},{323,323,324},{325,325,326},{327,327,328},{330,330,331},{332,332,333},{334,334,335},{336,336,337},{338,338,339},{340,340,341},{342,342,343},{344,344,345},{346,346,347},{348,348,349},{350,350,351},{352,352,353},{354,354,355},{356,356,357},{358,358,359},{360,360,361},{362,362,363},{364,364,365},{366,366,367},{368,368,369},{370,370,371},{372,372,373},{374,374,375},{376,376,255},{377,377,378},{379,379,380},{381,381,382},{385,385,595},{386,386,387},{388,388,389},{390,390,596},{391,391,392},{393,394,598},{395,395,396},{398,398,477},{399,399,601},{400,400,603},{401,401,402},{403,403,608},{404,404,611},{406,406,617},{407,407,616},{408,408,409},{412,412,623},{413,413,626},{415,415,629},{416,416,417},{418,418,419},{420,420,421},{422,422,640},{423,423,424},{425,425,643},{428,428,429},{430,430,648},{431,431,432},{433,434,650},{435,435,436},{437,437,438},{439,439,658},{440,440,441},{444,444,445},{452,452,454},{453,453,454},{455,455,457},{456,456,457},{458,458,460},{459,459,460},{461,461,462},{463,463,464},{465,465,466},{467,467,468},{469,469,470},{471,471,472},{473,473,474},{475,475,476},{478,478,479},{480,480,481},{482,482,483},{484,484,485},{486,486,487},{488,488,489},{490,490,491},{492,492,493},{494,494,495},{497,497,499},{498,498,499},{500,500,501},{502,502,405},{503,503,447},{504,504,505},{506,506,507},{508,508,509},{510,510,511},{512,512,513},{514,514,515},{516,516,517},{518,518,519},{520,520,521},{522,522,523},{524,524,525},{526,526,527},{528,528,529},{530,530,531},{532,532,533},{534,534,535},{536,536,537},{538,538,539},{540,540,541},{542,542,543},{544,544,414},{546,546,547},{548,548,549},{550,550,551},{552,552,553},{554,554,555},{556,556,557},{558,558,559},{560,560,561},{562,562,563},{570,570,11365},{571,571,572},{573,573,410},{574,574,11366},{577,577,578},{579,579,384},{580,580,649},{581,581,652},{582,582,583},{584,584,585},{586,586,587},{588,588,589},{590,590,591},{880,880,881},{882,882,883},{886,886,887},{902,902,940},{904,906,941},{908,908,972},{910,911,973},{913,929,945},{931,939,963},{975,975,983},{984,984,985},{986,986,987},{988,988,989},{990,990,991},{992,992,993},{994,994,995},{996,996,997},{998,998,999},{1000,1000,1001},{1002,1002,1003},{1004,1004,1005},{1006,1006,1007},{1012,1012,952},{1015,1015,1016},{1017,1017,1010},{1018,1018,1019},{1021,1023,891},{1024,1039,1104},{1040,1071,1072},{1120,1120,1121},{1122,1122,1123},{1124,1124,1125},{1126,1126,1127},{1128,1128,1129},{1130,1130,1131},{1132,1132,1133},{1134,1134,1135},{1136,1136,1137},{1138,1138,1139},{1140,1140,1141},{1142,1142,1143},{1144,1144,1145},{1146,1146,1147},{1148,1148,1149},{1150,1150,1151},{1152,1152,1153},{1162,1162,1163},{1164,1164,1165},{1166,1166,1167},{1168,1168,1169},{1170,1170,1171},{1172,1172,1173},{1174,1174,1175},{1176,1176,1177},{1178,1178,1179},{1180,1180,1181},{1182,1182,1183},{1184,1184,1185},{1186,1186,1187},{1188,1188,1189},{1190,1190,1191},{1192,1192,1193},{1194,1194,1195},{1196,1196,1197},{1198,1198,1199},{1200,1200,1201},{1202,1202,1203},{1204,1204,1205},{1206,1206,1207},{1208,1208,1209},{1210,1210,1211},{1212,1212,1213},{1214,1214,1215},{1216,1216,1231},{1217,1217,1218},{1219,1219,1220},{1221,1221,1222},{1223,1223,1224},{1225,1225,1226},{1227,1227,1228},{1229,1229,1230},{1232,1232,1233},{1234,1234,1235},{1236,1236,1237},{1238,1238,1239},{1240,1240,1241},{1242,1242,1243},{1244,1244,1245},{1246,1246,1247},{1248,1248,1249},{1250,1250,1251},{1252,1252,1253},{1254,1254,1255},{1256,1256,1257},{1258,1258,1259},{1260,1260,1261},{1262,1262,1263},{1264,1264,1265},{1266,1266,1267},{1268,1268,1269},{1270,1270,1271},{1272,1272,1273},{1274,1274,1275},{1276,1276,1277},{1278,1278,1279},{1280,1280,1281},{1282,1282,1283},{1284,1284,1285},{1286,1286,1287},{1288,1288,1289},{1290,1290,1291},{1292,1292,1293},{1294,1294,1295},{1296,1296,1297},{1298,1298,1299},{1300,1300,1301},{1302,1302,1303},{1304,1304,1305},{1306,1306,1307},{1308,1308,1309},{1310,1310,1311},{1312,1312,1313},{1314,1314,1315},{1316,1316,1317},{1318,1318,1319},{1329,1366,1377},{4256,4293,11520},{7680,7680,7681},{7682,7682,7683},{7684,7684,7685},{7686,7686,7687},{7688,7688,7689},{7690,7690,7691},{7692,7692,7693},{7694,7694,7695},{7696,7696,7697},{7698,7698,7699},{7700,7700,7701},{7702,7702,7703},{7704,7704,7705},{7706,7706,7707},{7708,7708,7709},{7710,7710,7711},{7712,7712,7713},{7714,7714,7715},{7716,7716,7717},{7718,7718,7719},{7720,7720,7721},{7722,7722,7723},{7724,7724,7725},{7726,7726,7727},{7728,7728,7729},{7730,7730,7731},{7732,7732,7733},{7734,7734,7735},{7736,7736,7737},{7738,7738,7739},{7740,7740,7741},{7742,7742,7743},{7744,7744,7745},{7746,7746,7747},{7748,7748,7749},{7750,7750,7751},{7752,7752,7753},{7754,7754,7755},{7756,7756,7757},{7758,7758,7759},{7760,7760,7761},{7762,7762,7763},{7764,7764,7765},{7766,7766,7767},{7768,7768,7769},{7770,7770,7771},{7772,7772,7773},{7774,7774,7775},{7776,7776,7777},{7778,7778,7779},{7780,7780,7781},{7782,7782,7783},{7784,7784,7785},{7786,7786,7787},{7788,7788,7789},{7790,7790,7791},{7792,7792,7793},{7794,7794,7795},{7796,7796,7797},{7798,7798,7799},{7800,7800,7801},{7802,7802,7803},{7804,7804,7805},{7806,7806,7807},{7808,7808,7809},{7810,7810,7811},{7812,7812,7813},{7814,7814,7815},{7816,7816,7817},{7818,7818,7819},{7820,7820,7821},{7822,7822,7823},{7824,7824,7825},{7826,7826,7827},{7828,7828,7829},{7838,7838,223},{7840,7840,7841},{7842,7842,7843},{7844,7844,7845},{7846,7846,7847},{7848,7848,7849},{7850,7850,7851},{7852,7852,7853},{7854,7854,7855},{7856,7856,7857},{7858,7858,7859},{7860,7860,7861},{7862,7862,7863},{7864,7864,7865},{7866,7866,7867},{7868,7868,7869},{7870,7870,7871},{7872,7872,7873},{7874,7874,7875},{7876,7876,7877},{7878,7878,7879},{7880,7880,7881},{7882,7882,7883},{7884,7884,7885},{7886,7886,7887},{7888,7888,7889},{7890,7890,7891},{7892,7892,7893},{7894,7894,7895},{7896,7896,7897},{7898,7898,7899},{7900,7900,7901},{7902,7902,7903},{7904,7904,7905},{7906,7906,7907},{7908,7908,7909},{7910,7910,7911},{7912,7912,7913},{7914,7914,7915},{7916,7916,7917},{7918,7918,7919},{7920,7920,7921},{7922,7922,7923},{7924,7924,7925},{7926,7926,7927},{7928,7928,7929},{7930,7930,7931},{7932,7932,7933},{7934,7934,7935},{7944,7951,7936},{7960,7965,7952},{7976,7983,7968},{7992,7999,7984},{8008,8013,8000},{8025,8025,8017},{8027,8027,8019},{8029,8029,8021},{8031,8031,8023},{8040,8047,8032},{8072,8079,8064},{8088,8095,8080},{8104,8111,8096},{8120,8121,8112},{8122,8123,8048},{8124,8124,8115},{8136,8139,8050},{8140,8140,8131},{8152,8153,8144},{8154,8155,8054},{8168,8169,8160},{8170,8171,8058},{8172,8172,8165},{8184,8185,8056},{8186,8187,8060},{8188,8188,8179},{8486,8486,969},{8490,8490,107},{8491,8491,229},{8498,8498,8526},{8544,8559,8560},{8579,8579,8580},{9398,9423,9424},{11264,11310,11312},{11360,11360,11361},{11362,11362,619},{11363,11363,7549},{11364,11364,637},{11367,11367,11368},{11369,11369,11370},{11371,11371,11372},{11373,11373,593},{11374,11374,625},{11375,11375,592},{11376,11376,594},{11378,11378,11379},{11381,11381,11382},{11390,11391,575},{11392,11392,11393},{11394,11394,11395},{11396,11396,11397},{11398,11398,11399},{11400,11400,11401},{11402,11402,11403},{11404,11404,11405},{11406,11406,11407},{11408,11408,11409},{11410,11410,11411},{11412,11412,11413},{11414,11414,11415},{11416,11416,11417},{11418,11418,11419},{11420,11420,11421},{11422,11422,11423},{11424,11424,11425},{11426,11426,11427},{11428,11428,11429},{11430,11430,11431},{11432,11432,11433},{11434,11434,11435},{11436,11436,11437},{11438,11438,11439},{11440,11440,11441},{11442,11442,11443},{11444,11444,11445},{11446,11446,11447},{11448,11448,11449},{11450,11450,11451},{11452,11452,11453},{11454,11454,11455},{11456,11456,11457},{11458,11458,11459},{11460,11460,11461},{11462,11462,11463},{11464,11464,11465},{11466,11466,11467},{11468,11468,11469},{11470,11470,11471},{11472,11472,11473},{11474,11474,11475},{11476,11476,11477},{11478,11478,11479},{11480,11480,11481},{11482,11482,11483},{11484,11484,11485},{11486,11486,11487},{11488,11488,11489},{11490,11490,11491},{11499,11499,11500},{11501,11501,11502},{42560,42560,42561},{42562,42562,42563},{42564,42564,42565},{42566,42566,42567},{42568,42568,42569},{42570,42570,42571},{42572,42572,42573},{42574,42574,42575},{42576,42576,42577},{42578,42578,42579},{42580,42580,42581},{42582,42582,42583},{42584,42584,42585},{42586,42586,42587},{42588,42588,42589},{42590,42590,42591},{42592,42592,42593},{42594,42594,42595},{42596,42596,42597},{42598,42598,42599},{42600,42600,42601},{42602,42602,42603},{42604,42604,42605},{42624,42624,42625},{42626,42626,42627},{42628,42628,42629},{42630,42630,42631},{42632,42632,42633},{42634,42634,42635},{42636,42636,42637},{42638,42638,42639},{42640,42640,42641},{42642,42642,42643},{42644,42644,42645},{42646,42646,42647},{42786,42786,42787},{42788,42788,42789},{42790,42790,42791},{42792,42792,42793},{42794,42794,42795},{42796,42796,42797},{42798,42798,42799},{42802,42802,42803},{42804,42804,42805},{42806,42806,42807},{42808,42808,42809},{42810,42810,42811},{42812,42812,42813},{42814,42814,42815},{42816,42816,42817},{42818,42818,42819},{42820,42820,42821},{42822,42822,42823},{42824,42824,42825},{42826,42826,42827},{42828,42828,42829},{42830,42830,42831},{42832,42832,42833},{42834,42834,42835},{42836,42836,42837},{42838,42838,42839},{42840,42840,42841},{42842,42842,42843},{42844,42844,42845},{42846,42846,42847},{42848,42848,42849},{42850,42850,42851},{42852,42852,42853},{42854,42854,42855},{42856,42856,42857},{42858,42858,42859},{42860,42860,42861},{42862,42862,42863},{42873,42873,42874},{42875,42875,42876},{42877,42877,7545},{42878,42878,42879},{42880,42880,42881},{42882,42882,42883},{42884,42884,42885},{42886,42886,42887},{42891,42891,42892},{42893,42893,613},{42896,42896,42897},{42912,42912,42913},{42914,42914,42915},{42916,42916,42917},{42918,42918,42919},{42920,42920,42921},{65313,65338,65345},{66560,66599,66600}};
