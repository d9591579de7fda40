// made by tools/mkdata.py from the Unicode 13.0 data files
static const char *const gc_names[] = {"Cn", "Cc", "Cf", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So", "Zl", "Zp", "Zs"};
static const char *const bidi_names[] = {"L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"};
static const unsigned t_gc[][3] = {
{0,31,1},
{32,32,29},
{33,35,21},
{36,36,23},
{37,39,21},
{40,40,22},
{41,41,18},
{42,42,21},
{43,43,25},
{44,44,21},
{45,45,17},
{46,47,21},
{48,57,13},
{58,59,21},
{60,62,25},
{63,64,21},
{65,90,9},
{91,91,22},
{92,92,21},
{93,93,18},
{94,94,24},
{95,95,16},
{96,96,24},
{97,122,5},
{123,123,22},
{124,124,25},
{125,125,18},
{126,126,25},
{127,159,1},
{160,160,29},
{161,161,21},
{162,165,23},
{166,166,26},
{167,167,21},
{168,168,24},
{169,169,26},
{170,170,7},
{171,171,20},
{172,172,25},
{173,173,2},
{174,174,26},
{175,175,24},
{176,176,26},
{177,177,25},
{178,179,15},
{180,180,24},
{181,181,5},
{182,183,21},
{184,184,24},
{185,185,15},
{186,186,7},
{187,187,19},
{188,190,15},
{191,191,21},
{192,214,9},
{215,215,25},
{216,222,9},
{223,246,5},
{247,247,25},
{248,255,5},
{256,256,9},
{257,257,5},
{258,258,9},
{259,259,5},
{260,260,9},
{261,261,5},
{262,262,9},
{263,263,5},
{264,264,9},
{265,265,5},
{266,266,9},
{267,267,5},
{268,268,9},
{269,269,5},
{270,270,9},
{271,271,5},
{272,272,9},
{273,273,5},
{274,274,9},
{275,275,5},
{276,276,9},
{277,277,5},
{278,278,9},
{279,279,5},
{280,280,9},
{281,281,5},
{282,282,9},
{283,283,5},
{284,284,9},
{285,285,5},
{286,286,9},
{287,287,5},
{288,288,9},
{289,289,5},
{290,290,9},
{291,291,5},
{292,292,9},
{293,293,5},
{294,294,9},
{295,295,5},
{296,296,9},
{297,297,5},
{298,298,9},
{299,299,5},
{300,300,9},
{301,301,5},
{302,302,9},
{303,303,5},
{304,304,9},
{305,305,5},
{306,306,9},
{307,307,5},
{308,308,9},
{309,309,5},
{310,310,9},
{311,312,5},
{313,313,9},
{314,314,5},
{315,315,9},
{316,316,5},
{317,317,9},
{318,318,5},
{319,319,9},
{320,320,5},
{321,321,9},
{322,322,5},
{323,323,9},
{324,324,5},
{325,325,9},
{326,326,5},
{327,327,9},
{328,329,5},
{330,330,9},
{331,331,5},
{332,332,9},
{333,333,5},
{334,334,9},
{335,335,5},
{336,336,9},
{337,337,5},
{338,338,9},
{339,339,5},
{340,340,9},
{341,341,5},
{342,342,9},
{343,343,5},
{344,344,9},
{345,345,5},
{346,346,9},
{347,347,5},
{348,348,9},
{349,349,5},
{350,350,9},
{351,351,5},
{352,352,9},
{353,353,5},
{354,354,9},
{355,355,5},
{356,356,9},
{357,357,5},
{358,358,9},
{359,359,5},
{360,360,9},
{361,361,5},
{362,362,9},
{363,363,5},
{364,364,9},
{365,365,5},
{366,366,9},
{367,367,5},
{368,368,9},
{369,369,5},
{370,370,9},
{371,371,5},
{372,372,9},
{373,373,5},
{374,374,9},
{375,375,5},
{376,377,9},
{378,378,5},
{379,379,9},
{380,380,5},
{381,381,9},
{382,384,5},
{385,386,9},
{387,387,5},
{388,388,9},
{389,389,5},
{390,391,9},
{392,392,5},
{393,395,9},
{396,397,5},
{398,401,9},
{402,402,5},
{403,404,9},
{405,405,5},
{406,408,9},
{409,411,5},
{412,413,9},
{414,414,5},
{415,416,9},
{417,417,5},
{418,418,9},
{419,419,5},
{420,420,9},
{421,421,5},
{422,423,9},
{424,424,5},
{425,425,9},
{426,427,5},
{428,428,9},
{429,429,5},
{430,431,9},
{432,432,5},
{433,435,9},
{436,436,5},
{437,437,9},
{438,438,5},
{439,440,9},
{441,442,5},
{443,443,7},
{444,444,9},
{445,447,5},
{448,451,7},
{452,452,9},
{453,453,8},
{454,454,5},
{455,455,9},
{456,456,8},
{457,457,5},
{458,458,9},
{459,459,8},
{460,460,5},
{461,461,9},
{462,462,5},
{463,463,9},
{464,464,5},
{465,465,9},
{466,466,5},
{467,467,9},
{468,468,5},
{469,469,9},
{470,470,5},
{471,471,9},
{472,472,5},
{473,473,9},
{474,474,5},
{475,475,9},
{476,477,5},
{478,478,9},
{479,479,5},
{480,480,9},
{481,481,5},
{482,482,9},
{483,483,5},
{484,484,9},
{485,485,5},
{486,486,9},
{487,487,5},
{488,488,9},
{489,489,5},
{490,490,9},
{491,491,5},
{492,492,9},
{493,493,5},
{494,494,9},
{495,496,5},
{497,497,9},
{498,498,8},
{499,499,5},
{500,500,9},
{501,501,5},
{502,504,9},
{505,505,5},
{506,506,9},
{507,507,5},
{508,508,9},
{509,509,5},
{510,510,9},
{511,511,5},
{512,512,9},
{513,513,5},
{514,514,9},
{515,515,5},
{516,516,9},
{517,517,5},
{518,518,9},
{519,519,5},
{520,520,9},
{521,521,5},
{522,522,9},
{523,523,5},
{524,524,9},
{525,525,5},
{526,526,9},
{527,527,5},
{528,528,9},
{529,529,5},
{530,530,9},
{531,531,5},
{532,532,9},
{533,533,5},
{534,534,9},
{535,535,5},
{536,536,9},
{537,537,5},
{538,538,9},
{539,539,5},
{540,540,9},
{541,541,5},
{542,542,9},
{543,543,5},
{544,544,9},
{545,545,5},
{546,546,9},
{547,547,5},
{548,548,9},
{549,549,5},
{550,550,9},
{551,551,5},
{552,552,9},
{553,553,5},
{554,554,9},
{555,555,5},
{556,556,9},
{557,557,5},
{558,558,9},
{559,559,5},
{560,560,9},
{561,561,5},
{562,562,9},
{563,569,5},
{570,571,9},
{572,572,5},
{573,574,9},
{575,576,5},
{577,577,9},
{578,578,5},
{579,582,9},
{583,583,5},
{584,584,9},
{585,585,5},
{586,586,9},
{587,587,5},
{588,588,9},
{589,589,5},
{590,590,9},
{591,659,5},
{660,660,7},
{661,687,5},
{688,705,6},
{706,709,24},
{710,721,6},
{722,735,24},
{736,740,6},
{741,747,24},
{748,748,6},
{749,749,24},
{750,750,6},
{751,767,24},
{768,879,12},
{880,880,9},
{881,881,5},
{882,882,9},
{883,883,5},
{884,884,6},
{885,885,24},
{886,886,9},
{887,887,5},
{890,890,6},
{891,893,5},
{894,894,21},
{895,895,9},
{900,901,24},
{902,902,9},
{903,903,21},
{904,906,9},
{908,908,9},
{910,911,9},
{912,912,5},
{913,929,9},
{931,939,9},
{940,974,5},
{975,975,9},
{976,977,5},
{978,980,9},
{981,983,5},
{984,984,9},
{985,985,5},
{986,986,9},
{987,987,5},
{988,988,9},
{989,989,5},
{990,990,9},
{991,991,5},
{992,992,9},
{993,993,5},
{994,994,9},
{995,995,5},
{996,996,9},
{997,997,5},
{998,998,9},
{999,999,5},
{1000,1000,9},
{1001,1001,5},
{1002,1002,9},
{1003,1003,5},
{1004,1004,9},
{1005,1005,5},
{1006,1006,9},
{1007,1011,5},
{1012,1012,9},
{1013,1013,5},
{1014,1014,25},
{1015,1015,9},
{1016,1016,5},
{1017,1018,9},
{1019,1020,5},
{1021,1071,9},
{1072,1119,5},
{1120,1120,9},
{1121,1121,5},
{1122,1122,9},
{1123,1123,5},
{1124,1124,9},
{1125,1125,5},
{1126,1126,9},
{1127,1127,5},
{1128,1128,9},
{1129,1129,5},
{1130,1130,9},
{1131,1131,5},
{1132,1132,9},
{1133,1133,5},
{1134,1134,9},
{1135,1135,5},
{1136,1136,9},
{1137,1137,5},
{1138,1138,9},
{1139,1139,5},
{1140,1140,9},
{1141,1141,5},
{1142,1142,9},
{1143,1143,5},
{1144,1144,9},
{1145,1145,5},
{1146,1146,9},
{1147,1147,5},
{1148,1148,9},
{1149,1149,5},
{1150,1150,9},
{1151,1151,5},
{1152,1152,9},
{1153,1153,5},
{1154,1154,26},
{1155,1159,12},
{1160,1161,11},
{1162,1162,9},
{1163,1163,5},
{1164,1164,9},
{1165,1165,5},
{1166,1166,9},
{1167,1167,5},
{1168,1168,9},
{1169,1169,5},
{1170,1170,9},
{1171,1171,5},
{1172,1172,9},
{1173,1173,5},
{1174,1174,9},
{1175,1175,5},
{1176,1176,9},
{1177,1177,5},
{1178,1178,9},
{1179,1179,5},
{1180,1180,9},
{1181,1181,5},
{1182,1182,9},
{1183,1183,5},
{1184,1184,9},
{1185,1185,5},
{1186,1186,9},
{1187,1187,5},
{1188,1188,9},
{1189,1189,5},
{1190,1190,9},
{1191,1191,5},
{1192,1192,9},
{1193,1193,5},
{1194,1194,9},
{1195,1195,5},
{1196,1196,9},
{1197,1197,5},
{1198,1198,9},
{1199,1199,5},
{1200,1200,9},
{1201,1201,5},
{1202,1202,9},
{1203,1203,5},
{1204,1204,9},
{1205,1205,5},
{1206,1206,9},
{1207,1207,5},
{1208,1208,9},
{1209,1209,5},
{1210,1210,9},
{1211,1211,5},
{1212,1212,9},
{1213,1213,5},
{1214,1214,9},
{1215,1215,5},
{1216,1217,9},
{1218,1218,5},
{1219,1219,9},
{1220,1220,5},
{1221,1221,9},
{1222,1222,5},
{1223,1223,9},
{1224,1224,5},
{1225,1225,9},
{1226,1226,5},
{1227,1227,9},
{1228,1228,5},
{1229,1229,9},
{1230,1231,5},
{1232,1232,9},
{1233,1233,5},
{1234,1234,9},
{1235,1235,5},
{1236,1236,9},
{1237,1237,5},
{1238,1238,9},
{1239,1239,5},
{1240,1240,9},
{1241,1241,5},
{1242,1242,9},
{1243,1243,5},
{1244,1244,9},
{1245,1245,5},
{1246,1246,9},
{1247,1247,5},
{1248,1248,9},
{1249,1249,5},
{1250,1250,9},
{1251,1251,5},
{1252,1252,9},
{1253,1253,5},
{1254,1254,9},
{1255,1255,5},
{1256,1256,9},
{1257,1257,5},
{1258,1258,9},
{1259,1259,5},
{1260,1260,9},
{1261,1261,5},
{1262,1262,9},
{1263,1263,5},
{1264,1264,9},
{1265,1265,5},
{1266,1266,9},
{1267,1267,5},
{1268,1268,9},
{1269,1269,5},
{1270,1270,9},
{1271,1271,5},
{1272,1272,9},
{1273,1273,5},
{1274,1274,9},
{1275,1275,5},
{1276,1276,9},
{1277,1277,5},
{1278,1278,9},
{1279,1279,5},
{1280,1280,9},
{1281,1281,5},
{1282,1282,9},
{1283,1283,5},
{1284,1284,9},
{1285,1285,5},
{1286,1286,9},
{1287,1287,5},
{1288,1288,9},
{1289,1289,5},
{1290,1290,9},
{1291,1291,5},
{1292,1292,9},
{1293,1293,5},
{1294,1294,9},
{1295,1295,5},
{1296,1296,9},
{1297,1297,5},
{1298,1298,9},
{1299,1299,5},
{1300,1300,9},
{1301,1301,5},
{1302,1302,9},
{1303,1303,5},
{1304,1304,9},
{1305,1305,5},
{1306,1306,9},
{1307,1307,5},
{1308,1308,9},
{1309,1309,5},
{1310,1310,9},
{1311,1311,5},
{1312,1312,9},
{1313,1313,5},
{1314,1314,9},
{1315,1315,5},
{1316,1316,9},
{1317,1317,5},
{1318,1318,9},
{1319,1319,5},
{1320,1320,9},
{1321,1321,5},
{1322,1322,9},
{1323,1323,5},
{1324,1324,9},
{1325,1325,5},
{1326,1326,9},
{1327,1327,5},
{1329,1366,9},
{1369,1369,6},
{1370,1375,21},
{1376,1416,5},
{1417,1417,21},
{1418,1418,17},
{1421,1422,26},
{1423,1423,23},
{1425,1469,12},
{1470,1470,17},
{1471,1471,12},
{1472,1472,21},
{1473,1474,12},
{1475,1475,21},
{1476,1477,12},
{1478,1478,21},
{1479,1479,12},
{1488,1514,7},
{1519,1522,7},
{1523,1524,21},
{1536,1541,2},
{1542,1544,25},
{1545,1546,21},
{1547,1547,23},
{1548,1549,21},
{1550,1551,26},
{1552,1562,12},
{1563,1563,21},
{1564,1564,2},
{1566,1567,21},
{1568,1599,7},
{1600,1600,6},
{1601,1610,7},
{1611,1631,12},
{1632,1641,13},
{1642,1645,21},
{1646,1647,7},
{1648,1648,12},
{1649,1747,7},
{1748,1748,21},
{1749,1749,7},
{1750,1756,12},
{1757,1757,2},
{1758,1758,26},
{1759,1764,12},
{1765,1766,6},
{1767,1768,12},
{1769,1769,26},
{1770,1773,12},
{1774,1775,7},
{1776,1785,13},
{1786,1788,7},
{1789,1790,26},
{1791,1791,7},
{1792,1805,21},
{1807,1807,2},
{1808,1808,7},
{1809,1809,12},
{1810,1839,7},
{1840,1866,12},
{1869,1957,7},
{1958,1968,12},
{1969,1969,7},
{1984,1993,13},
{1994,2026,7},
{2027,2035,12},
{2036,2037,6},
{2038,2038,26},
{2039,2041,21},
{2042,2042,6},
{2045,2045,12},
{2046,2047,23},
{2048,2069,7},
{2070,2073,12},
{2074,2074,6},
{2075,2083,12},
{2084,2084,6},
{2085,2087,12},
{2088,2088,6},
{2089,2093,12},
{2096,2110,21},
{2112,2136,7},
{2137,2139,12},
{2142,2142,21},
{2144,2154,7},
{2208,2228,7},
{2230,2247,7},
{2259,2273,12},
{2274,2274,2},
{2275,2306,12},
{2307,2307,10},
{2308,2361,7},
{2362,2362,12},
{2363,2363,10},
{2364,2364,12},
{2365,2365,7},
{2366,2368,10},
{2369,2376,12},
{2377,2380,10},
{2381,2381,12},
{2382,2383,10},
{2384,2384,7},
{2385,2391,12},
{2392,2401,7},
{2402,2403,12},
{2404,2405,21},
{2406,2415,13},
{2416,2416,21},
{2417,2417,6},
{2418,2432,7},
{2433,2433,12},
{2434,2435,10},
{2437,2444,7},
{2447,2448,7},
{2451,2472,7},
{2474,2480,7},
{2482,2482,7},
{2486,2489,7},
{2492,2492,12},
{2493,2493,7},
{2494,2496,10},
{2497,2500,12},
{2503,2504,10},
{2507,2508,10},
{2509,2509,12},
{2510,2510,7},
{2519,2519,10},
{2524,2525,7},
{2527,2529,7},
{2530,2531,12},
{2534,2543,13},
{2544,2545,7},
{2546,2547,23},
{2548,2553,15},
{2554,2554,26},
{2555,2555,23},
{2556,2556,7},
{2557,2557,21},
{2558,2558,12},
{2561,2562,12},
{2563,2563,10},
{2565,2570,7},
{2575,2576,7},
{2579,2600,7},
{2602,2608,7},
{2610,2611,7},
{2613,2614,7},
{2616,2617,7},
{2620,2620,12},
{2622,2624,10},
{2625,2626,12},
{2631,2632,12},
{2635,2637,12},
{2641,2641,12},
{2649,2652,7},
{2654,2654,7},
{2662,2671,13},
{2672,2673,12},
{2674,2676,7},
{2677,2677,12},
{2678,2678,21},
{2689,2690,12},
{2691,2691,10},
{2693,2701,7},
{2703,2705,7},
{2707,2728,7},
{2730,2736,7},
{2738,2739,7},
{2741,2745,7},
{2748,2748,12},
{2749,2749,7},
{2750,2752,10},
{2753,2757,12},
{2759,2760,12},
{2761,2761,10},
{2763,2764,10},
{2765,2765,12},
{2768,2768,7},
{2784,2785,7},
{2786,2787,12},
{2790,2799,13},
{2800,2800,21},
{2801,2801,23},
{2809,2809,7},
{2810,2815,12},
{2817,2817,12},
{2818,2819,10},
{2821,2828,7},
{2831,2832,7},
{2835,2856,7},
{2858,2864,7},
{2866,2867,7},
{2869,2873,7},
{2876,2876,12},
{2877,2877,7},
{2878,2878,10},
{2879,2879,12},
{2880,2880,10},
{2881,2884,12},
{2887,2888,10},
{2891,2892,10},
{2893,2893,12},
{2901,2902,12},
{2903,2903,10},
{2908,2909,7},
{2911,2913,7},
{2914,2915,12},
{2918,2927,13},
{2928,2928,26},
{2929,2929,7},
{2930,2935,15},
{2946,2946,12},
{2947,2947,7},
{2949,2954,7},
{2958,2960,7},
{2962,2965,7},
{2969,2970,7},
{2972,2972,7},
{2974,2975,7},
{2979,2980,7},
{2984,2986,7},
{2990,3001,7},
{3006,3007,10},
{3008,3008,12},
{3009,3010,10},
{3014,3016,10},
{3018,3020,10},
{3021,3021,12},
{3024,3024,7},
{3031,3031,10},
{3046,3055,13},
{3056,3058,15},
{3059,3064,26},
{3065,3065,23},
{3066,3066,26},
{3072,3072,12},
{3073,3075,10},
{3076,3076,12},
{3077,3084,7},
{3086,3088,7},
{3090,3112,7},
{3114,3129,7},
{3133,3133,7},
{3134,3136,12},
{3137,3140,10},
{3142,3144,12},
{3146,3149,12},
{3157,3158,12},
{3160,3162,7},
{3168,3169,7},
{3170,3171,12},
{3174,3183,13},
{3191,3191,21},
{3192,3198,15},
{3199,3199,26},
{3200,3200,7},
{3201,3201,12},
{3202,3203,10},
{3204,3204,21},
{3205,3212,7},
{3214,3216,7},
{3218,3240,7},
{3242,3251,7},
{3253,3257,7},
{3260,3260,12},
{3261,3261,7},
{3262,3262,10},
{3263,3263,12},
{3264,3268,10},
{3270,3270,12},
{3271,3272,10},
{3274,3275,10},
{3276,3277,12},
{3285,3286,10},
{3294,3294,7},
{3296,3297,7},
{3298,3299,12},
{3302,3311,13},
{3313,3314,7},
{3328,3329,12},
{3330,3331,10},
{3332,3340,7},
{3342,3344,7},
{3346,3386,7},
{3387,3388,12},
{3389,3389,7},
{3390,3392,10},
{3393,3396,12},
{3398,3400,10},
{3402,3404,10},
{3405,3405,12},
{3406,3406,7},
{3407,3407,26},
{3412,3414,7},
{3415,3415,10},
{3416,3422,15},
{3423,3425,7},
{3426,3427,12},
{3430,3439,13},
{3440,3448,15},
{3449,3449,26},
{3450,3455,7},
{3457,3457,12},
{3458,3459,10},
{3461,3478,7},
{3482,3505,7},
{3507,3515,7},
{3517,3517,7},
{3520,3526,7},
{3530,3530,12},
{3535,3537,10},
{3538,3540,12},
{3542,3542,12},
{3544,3551,10},
{3558,3567,13},
{3570,3571,10},
{3572,3572,21},
{3585,3632,7},
{3633,3633,12},
{3634,3635,7},
{3636,3642,12},
{3647,3647,23},
{3648,3653,7},
{3654,3654,6},
{3655,3662,12},
{3663,3663,21},
{3664,3673,13},
{3674,3675,21},
{3713,3714,7},
{3716,3716,7},
{3718,3722,7},
{3724,3747,7},
{3749,3749,7},
{3751,3760,7},
{3761,3761,12},
{3762,3763,7},
{3764,3772,12},
{3773,3773,7},
{3776,3780,7},
{3782,3782,6},
{3784,3789,12},
{3792,3801,13},
{3804,3807,7},
{3840,3840,7},
{3841,3843,26},
{3844,3858,21},
{3859,3859,26},
{3860,3860,21},
{3861,3863,26},
{3864,3865,12},
{3866,3871,26},
{3872,3881,13},
{3882,3891,15},
{3892,3892,26},
{3893,3893,12},
{3894,3894,26},
{3895,3895,12},
{3896,3896,26},
{3897,3897,12},
{3898,3898,22},
{3899,3899,18},
{3900,3900,22},
{3901,3901,18},
{3902,3903,10},
{3904,3911,7},
{3913,3948,7},
{3953,3966,12},
{3967,3967,10},
{3968,3972,12},
{3973,3973,21},
{3974,3975,12},
{3976,3980,7},
{3981,3991,12},
{3993,4028,12},
{4030,4037,26},
{4038,4038,12},
{4039,4044,26},
{4046,4047,26},
{4048,4052,21},
{4053,4056,26},
{4057,4058,21},
{4096,4138,7},
{4139,4140,10},
{4141,4144,12},
{4145,4145,10},
{4146,4151,12},
{4152,4152,10},
{4153,4154,12},
{4155,4156,10},
{4157,4158,12},
{4159,4159,7},
{4160,4169,13},
{4170,4175,21},
{4176,4181,7},
{4182,4183,10},
{4184,4185,12},
{4186,4189,7},
{4190,4192,12},
{4193,4193,7},
{4194,4196,10},
{4197,4198,7},
{4199,4205,10},
{4206,4208,7},
{4209,4212,12},
{4213,4225,7},
{4226,4226,12},
{4227,4228,10},
{4229,4230,12},
{4231,4236,10},
{4237,4237,12},
{4238,4238,7},
{4239,4239,10},
{4240,4249,13},
{4250,4252,10},
{4253,4253,12},
{4254,4255,26},
{4256,4293,9},
{4295,4295,9},
{4301,4301,9},
{4304,4346,5},
{4347,4347,21},
{4348,4348,6},
{4349,4351,5},
{4352,4680,7},
{4682,4685,7},
{4688,4694,7},
{4696,4696,7},
{4698,4701,7},
{4704,4744,7},
{4746,4749,7},
{4752,4784,7},
{4786,4789,7},
{4792,4798,7},
{4800,4800,7},
{4802,4805,7},
{4808,4822,7},
{4824,4880,7},
{4882,4885,7},
{4888,4954,7},
{4957,4959,12},
{4960,4968,21},
{4969,4988,15},
{4992,5007,7},
{5008,5017,26},
{5024,5109,9},
{5112,5117,5},
{5120,5120,17},
{5121,5740,7},
{5741,5741,26},
{5742,5742,21},
{5743,5759,7},
{5760,5760,29},
{5761,5786,7},
{5787,5787,22},
{5788,5788,18},
{5792,5866,7},
{5867,5869,21},
{5870,5872,14},
{5873,5880,7},
{5888,5900,7},
{5902,5905,7},
{5906,5908,12},
{5920,5937,7},
{5938,5940,12},
{5941,5942,21},
{5952,5969,7},
{5970,5971,12},
{5984,5996,7},
{5998,6000,7},
{6002,6003,12},
{6016,6067,7},
{6068,6069,12},
{6070,6070,10},
{6071,6077,12},
{6078,6085,10},
{6086,6086,12},
{6087,6088,10},
{6089,6099,12},
{6100,6102,21},
{6103,6103,6},
{6104,6106,21},
{6107,6107,23},
{6108,6108,7},
{6109,6109,12},
{6112,6121,13},
{6128,6137,15},
{6144,6149,21},
{6150,6150,17},
{6151,6154,21},
{6155,6157,12},
{6158,6158,2},
{6160,6169,13},
{6176,6210,7},
{6211,6211,6},
{6212,6264,7},
{6272,6276,7},
{6277,6278,12},
{6279,6312,7},
{6313,6313,12},
{6314,6314,7},
{6320,6389,7},
{6400,6430,7},
{6432,6434,12},
{6435,6438,10},
{6439,6440,12},
{6441,6443,10},
{6448,6449,10},
{6450,6450,12},
{6451,6456,10},
{6457,6459,12},
{6464,6464,26},
{6468,6469,21},
{6470,6479,13},
{6480,6509,7},
{6512,6516,7},
{6528,6571,7},
{6576,6601,7},
{6608,6617,13},
{6618,6618,15},
{6622,6655,26},
{6656,6678,7},
{6679,6680,12},
{6681,6682,10},
{6683,6683,12},
{6686,6687,21},
{6688,6740,7},
{6741,6741,10},
{6742,6742,12},
{6743,6743,10},
{6744,6750,12},
{6752,6752,12},
{6753,6753,10},
{6754,6754,12},
{6755,6756,10},
{6757,6764,12},
{6765,6770,10},
{6771,6780,12},
{6783,6783,12},
{6784,6793,13},
{6800,6809,13},
{6816,6822,21},
{6823,6823,6},
{6824,6829,21},
{6832,6845,12},
{6846,6846,11},
{6847,6848,12},
{6912,6915,12},
{6916,6916,10},
{6917,6963,7},
{6964,6964,12},
{6965,6965,10},
{6966,6970,12},
{6971,6971,10},
{6972,6972,12},
{6973,6977,10},
{6978,6978,12},
{6979,6980,10},
{6981,6987,7},
{6992,7001,13},
{7002,7008,21},
{7009,7018,26},
{7019,7027,12},
{7028,7036,26},
{7040,7041,12},
{7042,7042,10},
{7043,7072,7},
{7073,7073,10},
{7074,7077,12},
{7078,7079,10},
{7080,7081,12},
{7082,7082,10},
{7083,7085,12},
{7086,7087,7},
{7088,7097,13},
{7098,7141,7},
{7142,7142,12},
{7143,7143,10},
{7144,7145,12},
{7146,7148,10},
{7149,7149,12},
{7150,7150,10},
{7151,7153,12},
{7154,7155,10},
{7164,7167,21},
{7168,7203,7},
{7204,7211,10},
{7212,7219,12},
{7220,7221,10},
{7222,7223,12},
{7227,7231,21},
{7232,7241,13},
{7245,7247,7},
{7248,7257,13},
{7258,7287,7},
{7288,7293,6},
{7294,7295,21},
{7296,7304,5},
{7312,7354,9},
{7357,7359,9},
{7360,7367,21},
{7376,7378,12},
{7379,7379,21},
{7380,7392,12},
{7393,7393,10},
{7394,7400,12},
{7401,7404,7},
{7405,7405,12},
{7406,7411,7},
{7412,7412,12},
{7413,7414,7},
{7415,7415,10},
{7416,7417,12},
{7418,7418,7},
{7424,7467,5},
{7468,7530,6},
{7531,7543,5},
{7544,7544,6},
{7545,7578,5},
{7579,7615,6},
{7616,7673,12},
{7675,7679,12},
{7680,7680,9},
{7681,7681,5},
{7682,7682,9},
{7683,7683,5},
{7684,7684,9},
{7685,7685,5},
{7686,7686,9},
{7687,7687,5},
{7688,7688,9},
{7689,7689,5},
{7690,7690,9},
{7691,7691,5},
{7692,7692,9},
{7693,7693,5},
{7694,7694,9},
{7695,7695,5},
{7696,7696,9},
{7697,7697,5},
{7698,7698,9},
{7699,7699,5},
{7700,7700,9},
{7701,7701,5},
{7702,7702,9},
{7703,7703,5},
{7704,7704,9},
{7705,7705,5},
{7706,7706,9},
{7707,7707,5},
{7708,7708,9},
{7709,7709,5},
{7710,7710,9},
{7711,7711,5},
{7712,7712,9},
{7713,7713,5},
{7714,7714,9},
{7715,7715,5},
{7716,7716,9},
{7717,7717,5},
{7718,7718,9},
{7719,7719,5},
{7720,7720,9},
{7721,7721,5},
{7722,7722,9},
{7723,7723,5},
{7724,7724,9},
{7725,7725,5},
{7726,7726,9},
{7727,7727,5},
{7728,7728,9},
{7729,7729,5},
{7730,7730,9},
{7731,7731,5},
{7732,7732,9},
{7733,7733,5},
{7734,7734,9},
{7735,7735,5},
{7736,7736,9},
{7737,7737,5},
{7738,7738,9},
{7739,7739,5},
{7740,7740,9},
{7741,7741,5},
{7742,7742,9},
{7743,7743,5},
{7744,7744,9},
{7745,7745,5},
{7746,7746,9},
{7747,7747,5},
{7748,7748,9},
{7749,7749,5},
{7750,7750,9},
{7751,7751,5},
{7752,7752,9},
{7753,7753,5},
{7754,7754,9},
{7755,7755,5},
{7756,7756,9},
{7757,7757,5},
{7758,7758,9},
{7759,7759,5},
{7760,7760,9},
{7761,7761,5},
{7762,7762,9},
{7763,7763,5},
{7764,7764,9},
{7765,7765,5},
{7766,7766,9},
{7767,7767,5},
{7768,7768,9},
{7769,7769,5},
{7770,7770,9},
{7771,7771,5},
{7772,7772,9},
{7773,7773,5},
{7774,7774,9},
{7775,7775,5},
{7776,7776,9},
{7777,7777,5},
{7778,7778,9},
{7779,7779,5},
{7780,7780,9},
{7781,7781,5},
{7782,7782,9},
{7783,7783,5},
{7784,7784,9},
{7785,7785,5},
{7786,7786,9},
{7787,7787,5},
{7788,7788,9},
{7789,7789,5},
{7790,7790,9},
{7791,7791,5},
{7792,7792,9},
{7793,7793,5},
{7794,7794,9},
{7795,7795,5},
{7796,7796,9},
{7797,7797,5},
{7798,7798,9},
{7799,7799,5},
{7800,7800,9},
{7801,7801,5},
{7802,7802,9},
{7803,7803,5},
{7804,7804,9},
{7805,7805,5},
{7806,7806,9},
{7807,7807,5},
{7808,7808,9},
{7809,7809,5},
{7810,7810,9},
{7811,7811,5},
{7812,7812,9},
{7813,7813,5},
{7814,7814,9},
{7815,7815,5},
{7816,7816,9},
{7817,7817,5},
{7818,7818,9},
{7819,7819,5},
{7820,7820,9},
{7821,7821,5},
{7822,7822,9},
{7823,7823,5},
{7824,7824,9},
{7825,7825,5},
{7826,7826,9},
{7827,7827,5},
{7828,7828,9},
{7829,7837,5},
{7838,7838,9},
{7839,7839,5},
{7840,7840,9},
{7841,7841,5},
{7842,7842,9},
{7843,7843,5},
{7844,7844,9},
{7845,7845,5},
{7846,7846,9},
{7847,7847,5},
{7848,7848,9},
{7849,7849,5},
{7850,7850,9},
{7851,7851,5},
{7852,7852,9},
{7853,7853,5},
{7854,7854,9},
{7855,7855,5},
{7856,7856,9},
{7857,7857,5},
{7858,7858,9},
{7859,7859,5},
{7860,7860,9},
{7861,7861,5},
{7862,7862,9},
{7863,7863,5},
{7864,7864,9},
{7865,7865,5},
{7866,7866,9},
{7867,7867,5},
{7868,7868,9},
{7869,7869,5},
{7870,7870,9},
{7871,7871,5},
{7872,7872,9},
{7873,7873,5},
{7874,7874,9},
{7875,7875,5},
{7876,7876,9},
{7877,7877,5},
{7878,7878,9},
{7879,7879,5},
{7880,7880,9},
{7881,7881,5},
{7882,7882,9},
{7883,7883,5},
{7884,7884,9},
{7885,7885,5},
{7886,7886,9},
{7887,7887,5},
{7888,7888,9},
{7889,7889,5},
{7890,7890,9},
{7891,7891,5},
{7892,7892,9},
{7893,7893,5},
{7894,7894,9},
{7895,7895,5},
{7896,7896,9},
{7897,7897,5},
{7898,7898,9},
{7899,7899,5},
{7900,7900,9},
{7901,7901,5},
{7902,7902,9},
{7903,7903,5},
{7904,7904,9},
{7905,7905,5},
{7906,7906,9},
{7907,7907,5},
{7908,7908,9},
{7909,7909,5},
{7910,7910,9},
{7911,7911,5},
{7912,7912,9},
{7913,7913,5},
{7914,7914,9},
{7915,7915,5},
{7916,7916,9},
{7917,7917,5},
{7918,7918,9},
{7919,7919,5},
{7920,7920,9},
{7921,7921,5},
{7922,7922,9},
{7923,7923,5},
{7924,7924,9},
{7925,7925,5},
{7926,7926,9},
{7927,7927,5},
{7928,7928,9},
{7929,7929,5},
{7930,7930,9},
{7931,7931,5},
{7932,7932,9},
{7933,7933,5},
{7934,7934,9},
{7935,7943,5},
{7944,7951,9},
{7952,7957,5},
{7960,7965,9},
{7968,7975,5},
{7976,7983,9},
{7984,7991,5},
{7992,7999,9},
{8000,8005,5},
{8008,8013,9},
{8016,8023,5},
{8025,8025,9},
{8027,8027,9},
{8029,8029,9},
{8031,8031,9},
{8032,8039,5},
{8040,8047,9},
{8048,8061,5},
{8064,8071,5},
{8072,8079,8},
{8080,8087,5},
{8088,8095,8},
{8096,8103,5},
{8104,8111,8},
{8112,8116,5},
{8118,8119,5},
{8120,8123,9},
{8124,8124,8},
{8125,8125,24},
{8126,8126,5},
{8127,8129,24},
{8130,8132,5},
{8134,8135,5},
{8136,8139,9},
{8140,8140,8},
{8141,8143,24},
{8144,8147,5},
{8150,8151,5},
{8152,8155,9},
{8157,8159,24},
{8160,8167,5},
{8168,8172,9},
{8173,8175,24},
{8178,8180,5},
{8182,8183,5},
{8184,8187,9},
{8188,8188,8},
{8189,8190,24},
{8192,8202,29},
{8203,8207,2},
{8208,8213,17},
{8214,8215,21},
{8216,8216,20},
{8217,8217,19},
{8218,8218,22},
{8219,8220,20},
{8221,8221,19},
{8222,8222,22},
{8223,8223,20},
{8224,8231,21},
{8232,8232,27},
{8233,8233,28},
{8234,8238,2},
{8239,8239,29},
{8240,8248,21},
{8249,8249,20},
{8250,8250,19},
{8251,8254,21},
{8255,8256,16},
{8257,8259,21},
{8260,8260,25},
{8261,8261,22},
{8262,8262,18},
{8263,8273,21},
{8274,8274,25},
{8275,8275,21},
{8276,8276,16},
{8277,8286,21},
{8287,8287,29},
{8288,8292,2},
{8294,8303,2},
{8304,8304,15},
{8305,8305,6},
{8308,8313,15},
{8314,8316,25},
{8317,8317,22},
{8318,8318,18},
{8319,8319,6},
{8320,8329,15},
{8330,8332,25},
{8333,8333,22},
{8334,8334,18},
{8336,8348,6},
{8352,8383,23},
{8400,8412,12},
{8413,8416,11},
{8417,8417,12},
{8418,8420,11},
{8421,8432,12},
{8448,8449,26},
{8450,8450,9},
{8451,8454,26},
{8455,8455,9},
{8456,8457,26},
{8458,8458,5},
{8459,8461,9},
{8462,8463,5},
{8464,8466,9},
{8467,8467,5},
{8468,8468,26},
{8469,8469,9},
{8470,8471,26},
{8472,8472,25},
{8473,8477,9},
{8478,8483,26},
{8484,8484,9},
{8485,8485,26},
{8486,8486,9},
{8487,8487,26},
{8488,8488,9},
{8489,8489,26},
{8490,8493,9},
{8494,8494,26},
{8495,8495,5},
{8496,8499,9},
{8500,8500,5},
{8501,8504,7},
{8505,8505,5},
{8506,8507,26},
{8508,8509,5},
{8510,8511,9},
{8512,8516,25},
{8517,8517,9},
{8518,8521,5},
{8522,8522,26},
{8523,8523,25},
{8524,8525,26},
{8526,8526,5},
{8527,8527,26},
{8528,8543,15},
{8544,8578,14},
{8579,8579,9},
{8580,8580,5},
{8581,8584,14},
{8585,8585,15},
{8586,8587,26},
{8592,8596,25},
{8597,8601,26},
{8602,8603,25},
{8604,8607,26},
{8608,8608,25},
{8609,8610,26},
{8611,8611,25},
{8612,8613,26},
{8614,8614,25},
{8615,8621,26},
{8622,8622,25},
{8623,8653,26},
{8654,8655,25},
{8656,8657,26},
{8658,8658,25},
{8659,8659,26},
{8660,8660,25},
{8661,8691,26},
{8692,8959,25},
{8960,8967,26},
{8968,8968,22},
{8969,8969,18},
{8970,8970,22},
{8971,8971,18},
{8972,8991,26},
{8992,8993,25},
{8994,9000,26},
{9001,9001,22},
{9002,9002,18},
{9003,9083,26},
{9084,9084,25},
{9085,9114,26},
{9115,9139,25},
{9140,9179,26},
{9180,9185,25},
{9186,9254,26},
{9280,9290,26},
{9312,9371,15},
{9372,9449,26},
{9450,9471,15},
{9472,9654,26},
{9655,9655,25},
{9656,9664,26},
{9665,9665,25},
{9666,9719,26},
{9720,9727,25},
{9728,9838,26},
{9839,9839,25},
{9840,10087,26},
{10088,10088,22},
{10089,10089,18},
{10090,10090,22},
{10091,10091,18},
{10092,10092,22},
{10093,10093,18},
{10094,10094,22},
{10095,10095,18},
{10096,10096,22},
{10097,10097,18},
{10098,10098,22},
{10099,10099,18},
{10100,10100,22},
{10101,10101,18},
{10102,10131,15},
{10132,10175,26},
{10176,10180,25},
{10181,10181,22},
{10182,10182,18},
{10183,10213,25},
{10214,10214,22},
{10215,10215,18},
{10216,10216,22},
{10217,10217,18},
{10218,10218,22},
{10219,10219,18},
{10220,10220,22},
{10221,10221,18},
{10222,10222,22},
{10223,10223,18},
{10224,10239,25},
{10240,10495,26},
{10496,10626,25},
{10627,10627,22},
{10628,10628,18},
{10629,10629,22},
{10630,10630,18},
{10631,10631,22},
{10632,10632,18},
{10633,10633,22},
{10634,10634,18},
{10635,10635,22},
{10636,10636,18},
{10637,10637,22},
{10638,10638,18},
{10639,10639,22},
{10640,10640,18},
{10641,10641,22},
{10642,10642,18},
{10643,10643,22},
{10644,10644,18},
{10645,10645,22},
{10646,10646,18},
{10647,10647,22},
{10648,10648,18},
{10649,10711,25},
{10712,10712,22},
{10713,10713,18},
{10714,10714,22},
{10715,10715,18},
{10716,10747,25},
{10748,10748,22},
{10749,10749,18},
{10750,11007,25},
{11008,11055,26},
{11056,11076,25},
{11077,11078,26},
{11079,11084,25},
{11085,11123,26},
{11126,11157,26},
{11159,11263,26},
{11264,11310,9},
{11312,11358,5},
{11360,11360,9},
{11361,11361,5},
{11362,11364,9},
{11365,11366,5},
{11367,11367,9},
{11368,11368,5},
{11369,11369,9},
{11370,11370,5},
{11371,11371,9},
{11372,11372,5},
{11373,11376,9},
{11377,11377,5},
{11378,11378,9},
{11379,11380,5},
{11381,11381,9},
{11382,11387,5},
{11388,11389,6},
{11390,11392,9},
{11393,11393,5},
{11394,11394,9},
{11395,11395,5},
{11396,11396,9},
{11397,11397,5},
{11398,11398,9},
{11399,11399,5},
{11400,11400,9},
{11401,11401,5},
{11402,11402,9},
{11403,11403,5},
{11404,11404,9},
{11405,11405,5},
{11406,11406,9},
{11407,11407,5},
{11408,11408,9},
{11409,11409,5},
{11410,11410,9},
{11411,11411,5},
{11412,11412,9},
{11413,11413,5},
{11414,11414,9},
{11415,11415,5},
{11416,11416,9},
{11417,11417,5},
{11418,11418,9},
{11419,11419,5},
{11420,11420,9},
{11421,11421,5},
{11422,11422,9},
{11423,11423,5},
{11424,11424,9},
{11425,11425,5},
{11426,11426,9},
{11427,11427,5},
{11428,11428,9},
{11429,11429,5},
{11430,11430,9},
{11431,11431,5},
{11432,11432,9},
{11433,11433,5},
{11434,11434,9},
{11435,11435,5},
{11436,11436,9},
{11437,11437,5},
{11438,11438,9},
{11439,11439,5},
{11440,11440,9},
{11441,11441,5},
{11442,11442,9},
{11443,11443,5},
{11444,11444,9},
{11445,11445,5},
{11446,11446,9},
{11447,11447,5},
{11448,11448,9},
{11449,11449,5},
{11450,11450,9},
{11451,11451,5},
{11452,11452,9},
{11453,11453,5},
{11454,11454,9},
{11455,11455,5},
{11456,11456,9},
{11457,11457,5},
{11458,11458,9},
{11459,11459,5},
{11460,11460,9},
{11461,11461,5},
{11462,11462,9},
{11463,11463,5},
{11464,11464,9},
{11465,11465,5},
{11466,11466,9},
{11467,11467,5},
{11468,11468,9},
{11469,11469,5},
{11470,11470,9},
{11471,11471,5},
{11472,11472,9},
{11473,11473,5},
{11474,11474,9},
{11475,11475,5},
{11476,11476,9},
{11477,11477,5},
{11478,11478,9},
{11479,11479,5},
{11480,11480,9},
{11481,11481,5},
{11482,11482,9},
{11483,11483,5},
{11484,11484,9},
{11485,11485,5},
{11486,11486,9},
{11487,11487,5},
{11488,11488,9},
{11489,11489,5},
{11490,11490,9},
{11491,11492,5},
{11493,11498,26},
{11499,11499,9},
{11500,11500,5},
{11501,11501,9},
{11502,11502,5},
{11503,11505,12},
{11506,11506,9},
{11507,11507,5},
{11513,11516,21},
{11517,11517,15},
{11518,11519,21},
{11520,11557,5},
{11559,11559,5},
{11565,11565,5},
{11568,11623,7},
{11631,11631,6},
{11632,11632,21},
{11647,11647,12},
{11648,11670,7},
{11680,11686,7},
{11688,11694,7},
{11696,11702,7},
{11704,11710,7},
{11712,11718,7},
{11720,11726,7},
{11728,11734,7},
{11736,11742,7},
{11744,11775,12},
{11776,11777,21},
{11778,11778,20},
{11779,11779,19},
{11780,11780,20},
{11781,11781,19},
{11782,11784,21},
{11785,11785,20},
{11786,11786,19},
{11787,11787,21},
{11788,11788,20},
{11789,11789,19},
{11790,11798,21},
{11799,11799,17},
{11800,11801,21},
{11802,11802,17},
{11803,11803,21},
{11804,11804,20},
{11805,11805,19},
{11806,11807,21},
{11808,11808,20},
{11809,11809,19},
{11810,11810,22},
{11811,11811,18},
{11812,11812,22},
{11813,11813,18},
{11814,11814,22},
{11815,11815,18},
{11816,11816,22},
{11817,11817,18},
{11818,11822,21},
{11823,11823,6},
{11824,11833,21},
{11834,11835,17},
{11836,11839,21},
{11840,11840,17},
{11841,11841,21},
{11842,11842,22},
{11843,11855,21},
{11856,11857,26},
{11858,11858,21},
{11904,11929,26},
{11931,12019,26},
{12032,12245,26},
{12272,12283,26},
{12288,12288,29},
{12289,12291,21},
{12292,12292,26},
{12293,12293,6},
{12294,12294,7},
{12295,12295,14},
{12296,12296,22},
{12297,12297,18},
{12298,12298,22},
{12299,12299,18},
{12300,12300,22},
{12301,12301,18},
{12302,12302,22},
{12303,12303,18},
{12304,12304,22},
{12305,12305,18},
{12306,12307,26},
{12308,12308,22},
{12309,12309,18},
{12310,12310,22},
{12311,12311,18},
{12312,12312,22},
{12313,12313,18},
{12314,12314,22},
{12315,12315,18},
{12316,12316,17},
{12317,12317,22},
{12318,12319,18},
{12320,12320,26},
{12321,12329,14},
{12330,12333,12},
{12334,12335,10},
{12336,12336,17},
{12337,12341,6},
{12342,12343,26},
{12344,12346,14},
{12347,12347,6},
{12348,12348,7},
{12349,12349,21},
{12350,12351,26},
{12353,12438,7},
{12441,12442,12},
{12443,12444,24},
{12445,12446,6},
{12447,12447,7},
{12448,12448,17},
{12449,12538,7},
{12539,12539,21},
{12540,12542,6},
{12543,12543,7},
{12549,12591,7},
{12593,12686,7},
{12688,12689,26},
{12690,12693,15},
{12694,12703,26},
{12704,12735,7},
{12736,12771,26},
{12784,12799,7},
{12800,12830,26},
{12832,12841,15},
{12842,12871,26},
{12872,12879,15},
{12880,12880,26},
{12881,12895,15},
{12896,12927,26},
{12928,12937,15},
{12938,12976,26},
{12977,12991,15},
{12992,13311,26},
{13312,19903,7},
{19904,19967,26},
{19968,40956,7},
{40960,40980,7},
{40981,40981,6},
{40982,42124,7},
{42128,42182,26},
{42192,42231,7},
{42232,42237,6},
{42238,42239,21},
{42240,42507,7},
{42508,42508,6},
{42509,42511,21},
{42512,42527,7},
{42528,42537,13},
{42538,42539,7},
{42560,42560,9},
{42561,42561,5},
{42562,42562,9},
{42563,42563,5},
{42564,42564,9},
{42565,42565,5},
{42566,42566,9},
{42567,42567,5},
{42568,42568,9},
{42569,42569,5},
{42570,42570,9},
{42571,42571,5},
{42572,42572,9},
{42573,42573,5},
{42574,42574,9},
{42575,42575,5},
{42576,42576,9},
{42577,42577,5},
{42578,42578,9},
{42579,42579,5},
{42580,42580,9},
{42581,42581,5},
{42582,42582,9},
{42583,42583,5},
{42584,42584,9},
{42585,42585,5},
{42586,42586,9},
{42587,42587,5},
{42588,42588,9},
{42589,42589,5},
{42590,42590,9},
{42591,42591,5},
{42592,42592,9},
{42593,42593,5},
{42594,42594,9},
{42595,42595,5},
{42596,42596,9},
{42597,42597,5},
{42598,42598,9},
{42599,42599,5},
{42600,42600,9},
{42601,42601,5},
{42602,42602,9},
{42603,42603,5},
{42604,42604,9},
{42605,42605,5},
{42606,42606,7},
{42607,42607,12},
{42608,42610,11},
{42611,42611,21},
{42612,42621,12},
{42622,42622,21},
{42623,42623,6},
{42624,42624,9},
{42625,42625,5},
{42626,42626,9},
{42627,42627,5},
{42628,42628,9},
{42629,42629,5},
{42630,42630,9},
{42631,42631,5},
{42632,42632,9},
{42633,42633,5},
{42634,42634,9},
{42635,42635,5},
{42636,42636,9},
{42637,42637,5},
{42638,42638,9},
{42639,42639,5},
{42640,42640,9},
{42641,42641,5},
{42642,42642,9},
{42643,42643,5},
{42644,42644,9},
{42645,42645,5},
{42646,42646,9},
{42647,42647,5},
{42648,42648,9},
{42649,42649,5},
{42650,42650,9},
{42651,42651,5},
{42652,42653,6},
{42654,42655,12},
{42656,42725,7},
{42726,42735,14},
{42736,42737,12},
{42738,42743,21},
{42752,42774,24},
{42775,42783,6},
{42784,42785,24},
{42786,42786,9},
{42787,42787,5},
{42788,42788,9},
{42789,42789,5},
{42790,42790,9},
{42791,42791,5},
{42792,42792,9},
{42793,42793,5},
{42794,42794,9},
{42795,42795,5},
{42796,42796,9},
{42797,42797,5},
{42798,42798,9},
{42799,42801,5},
{42802,42802,9},
{42803,42803,5},
{42804,42804,9},
{42805,42805,5},
{42806,42806,9},
{42807,42807,5},
{42808,42808,9},
{42809,42809,5},
{42810,42810,9},
{42811,42811,5},
{42812,42812,9},
{42813,42813,5},
{42814,42814,9},
{42815,42815,5},
{42816,42816,9},
{42817,42817,5},
{42818,42818,9},
{42819,42819,5},
{42820,42820,9},
{42821,42821,5},
{42822,42822,9},
{42823,42823,5},
{42824,42824,9},
{42825,42825,5},
{42826,42826,9},
{42827,42827,5},
{42828,42828,9},
{42829,42829,5},
{42830,42830,9},
{42831,42831,5},
{42832,42832,9},
{42833,42833,5},
{42834,42834,9},
{42835,42835,5},
{42836,42836,9},
{42837,42837,5},
{42838,42838,9},
{42839,42839,5},
{42840,42840,9},
{42841,42841,5},
{42842,42842,9},
{42843,42843,5},
{42844,42844,9},
{42845,42845,5},
{42846,42846,9},
{42847,42847,5},
{42848,42848,9},
{42849,42849,5},
{42850,42850,9},
{42851,42851,5},
{42852,42852,9},
{42853,42853,5},
{42854,42854,9},
{42855,42855,5},
{42856,42856,9},
{42857,42857,5},
{42858,42858,9},
{42859,42859,5},
{42860,42860,9},
{42861,42861,5},
{42862,42862,9},
{42863,42863,5},
{42864,42864,6},
{42865,42872,5},
{42873,42873,9},
{42874,42874,5},
{42875,42875,9},
{42876,42876,5},
{42877,42878,9},
{42879,42879,5},
{42880,42880,9},
{42881,42881,5},
{42882,42882,9},
{42883,42883,5},
{42884,42884,9},
{42885,42885,5},
{42886,42886,9},
{42887,42887,5},
{42888,42888,6},
{42889,42890,24},
{42891,42891,9},
{42892,42892,5},
{42893,42893,9},
{42894,42894,5},
{42895,42895,7},
{42896,42896,9},
{42897,42897,5},
{42898,42898,9},
{42899,42901,5},
{42902,42902,9},
{42903,42903,5},
{42904,42904,9},
{42905,42905,5},
{42906,42906,9},
{42907,42907,5},
{42908,42908,9},
{42909,42909,5},
{42910,42910,9},
{42911,42911,5},
{42912,42912,9},
{42913,42913,5},
{42914,42914,9},
{42915,42915,5},
{42916,42916,9},
{42917,42917,5},
{42918,42918,9},
{42919,42919,5},
{42920,42920,9},
{42921,42921,5},
{42922,42926,9},
{42927,42927,5},
{42928,42932,9},
{42933,42933,5},
{42934,42934,9},
{42935,42935,5},
{42936,42936,9},
{42937,42937,5},
{42938,42938,9},
{42939,42939,5},
{42940,42940,9},
{42941,42941,5},
{42942,42942,9},
{42943,42943,5},
{42946,42946,9},
{42947,42947,5},
{42948,42951,9},
{42952,42952,5},
{42953,42953,9},
{42954,42954,5},
{42997,42997,9},
{42998,42998,5},
{42999,42999,7},
{43000,43001,6},
{43002,43002,5},
{43003,43009,7},
{43010,43010,12},
{43011,43013,7},
{43014,43014,12},
{43015,43018,7},
{43019,43019,12},
{43020,43042,7},
{43043,43044,10},
{43045,43046,12},
{43047,43047,10},
{43048,43051,26},
{43052,43052,12},
{43056,43061,15},
{43062,43063,26},
{43064,43064,23},
{43065,43065,26},
{43072,43123,7},
{43124,43127,21},
{43136,43137,10},
{43138,43187,7},
{43188,43203,10},
{43204,43205,12},
{43214,43215,21},
{43216,43225,13},
{43232,43249,12},
{43250,43255,7},
{43256,43258,21},
{43259,43259,7},
{43260,43260,21},
{43261,43262,7},
{43263,43263,12},
{43264,43273,13},
{43274,43301,7},
{43302,43309,12},
{43310,43311,21},
{43312,43334,7},
{43335,43345,12},
{43346,43347,10},
{43359,43359,21},
{43360,43388,7},
{43392,43394,12},
{43395,43395,10},
{43396,43442,7},
{43443,43443,12},
{43444,43445,10},
{43446,43449,12},
{43450,43451,10},
{43452,43453,12},
{43454,43456,10},
{43457,43469,21},
{43471,43471,6},
{43472,43481,13},
{43486,43487,21},
{43488,43492,7},
{43493,43493,12},
{43494,43494,6},
{43495,43503,7},
{43504,43513,13},
{43514,43518,7},
{43520,43560,7},
{43561,43566,12},
{43567,43568,10},
{43569,43570,12},
{43571,43572,10},
{43573,43574,12},
{43584,43586,7},
{43587,43587,12},
{43588,43595,7},
{43596,43596,12},
{43597,43597,10},
{43600,43609,13},
{43612,43615,21},
{43616,43631,7},
{43632,43632,6},
{43633,43638,7},
{43639,43641,26},
{43642,43642,7},
{43643,43643,10},
{43644,43644,12},
{43645,43645,10},
{43646,43695,7},
{43696,43696,12},
{43697,43697,7},
{43698,43700,12},
{43701,43702,7},
{43703,43704,12},
{43705,43709,7},
{43710,43711,12},
{43712,43712,7},
{43713,43713,12},
{43714,43714,7},
{43739,43740,7},
{43741,43741,6},
{43742,43743,21},
{43744,43754,7},
{43755,43755,10},
{43756,43757,12},
{43758,43759,10},
{43760,43761,21},
{43762,43762,7},
{43763,43764,6},
{43765,43765,10},
{43766,43766,12},
{43777,43782,7},
{43785,43790,7},
{43793,43798,7},
{43808,43814,7},
{43816,43822,7},
{43824,43866,5},
{43867,43867,24},
{43868,43871,6},
{43872,43880,5},
{43881,43881,6},
{43882,43883,24},
{43888,43967,5},
{43968,44002,7},
{44003,44004,10},
{44005,44005,12},
{44006,44007,10},
{44008,44008,12},
{44009,44010,10},
{44011,44011,21},
{44012,44012,10},
{44013,44013,12},
{44016,44025,13},
{44032,55203,7},
{55216,55238,7},
{55243,55291,7},
{55296,57343,4},
{57344,63743,3},
{63744,64109,7},
{64112,64217,7},
{64256,64262,5},
{64275,64279,5},
{64285,64285,7},
{64286,64286,12},
{64287,64296,7},
{64297,64297,25},
{64298,64310,7},
{64312,64316,7},
{64318,64318,7},
{64320,64321,7},
{64323,64324,7},
{64326,64433,7},
{64434,64449,24},
{64467,64829,7},
{64830,64830,18},
{64831,64831,22},
{64848,64911,7},
{64914,64967,7},
{65008,65019,7},
{65020,65020,23},
{65021,65021,26},
{65024,65039,12},
{65040,65046,21},
{65047,65047,22},
{65048,65048,18},
{65049,65049,21},
{65056,65071,12},
{65072,65072,21},
{65073,65074,17},
{65075,65076,16},
{65077,65077,22},
{65078,65078,18},
{65079,65079,22},
{65080,65080,18},
{65081,65081,22},
{65082,65082,18},
{65083,65083,22},
{65084,65084,18},
{65085,65085,22},
{65086,65086,18},
{65087,65087,22},
{65088,65088,18},
{65089,65089,22},
{65090,65090,18},
{65091,65091,22},
{65092,65092,18},
{65093,65094,21},
{65095,65095,22},
{65096,65096,18},
{65097,65100,21},
{65101,65103,16},
{65104,65106,21},
{65108,65111,21},
{65112,65112,17},
{65113,65113,22},
{65114,65114,18},
{65115,65115,22},
{65116,65116,18},
{65117,65117,22},
{65118,65118,18},
{65119,65121,21},
{65122,65122,25},
{65123,65123,17},
{65124,65126,25},
{65128,65128,21},
{65129,65129,23},
{65130,65131,21},
{65136,65140,7},
{65142,65276,7},
{65279,65279,2},
{65281,65283,21},
{65284,65284,23},
{65285,65287,21},
{65288,65288,22},
{65289,65289,18},
{65290,65290,21},
{65291,65291,25},
{65292,65292,21},
{65293,65293,17},
{65294,65295,21},
{65296,65305,13},
{65306,65307,21},
{65308,65310,25},
{65311,65312,21},
{65313,65338,9},
{65339,65339,22},
{65340,65340,21},
{65341,65341,18},
{65342,65342,24},
{65343,65343,16},
{65344,65344,24},
{65345,65370,5},
{65371,65371,22},
{65372,65372,25},
{65373,65373,18},
{65374,65374,25},
{65375,65375,22},
{65376,65376,18},
{65377,65377,21},
{65378,65378,22},
{65379,65379,18},
{65380,65381,21},
{65382,65391,7},
{65392,65392,6},
{65393,65437,7},
{65438,65439,6},
{65440,65470,7},
{65474,65479,7},
{65482,65487,7},
{65490,65495,7},
{65498,65500,7},
{65504,65505,23},
{65506,65506,25},
{65507,65507,24},
{65508,65508,26},
{65509,65510,23},
{65512,65512,26},
{65513,65516,25},
{65517,65518,26},
{65529,65531,2},
{65532,65533,26},
{65536,65547,7},
{65549,65574,7},
{65576,65594,7},
{65596,65597,7},
{65599,65613,7},
{65616,65629,7},
{65664,65786,7},
{65792,65794,21},
{65799,65843,15},
{65847,65855,26},
{65856,65908,14},
{65909,65912,15},
{65913,65929,26},
{65930,65931,15},
{65932,65934,26},
{65936,65948,26},
{65952,65952,26},
{66000,66044,26},
{66045,66045,12},
{66176,66204,7},
{66208,66256,7},
{66272,66272,12},
{66273,66299,15},
{66304,66335,7},
{66336,66339,15},
{66349,66368,7},
{66369,66369,14},
{66370,66377,7},
{66378,66378,14},
{66384,66421,7},
{66422,66426,12},
{66432,66461,7},
{66463,66463,21},
{66464,66499,7},
{66504,66511,7},
{66512,66512,21},
{66513,66517,14},
{66560,66599,9},
{66600,66639,5},
{66640,66717,7},
{66720,66729,13},
{66736,66771,9},
{66776,66811,5},
{66816,66855,7},
{66864,66915,7},
{66927,66927,21},
{67072,67382,7},
{67392,67413,7},
{67424,67431,7},
{67584,67589,7},
{67592,67592,7},
{67594,67637,7},
{67639,67640,7},
{67644,67644,7},
{67647,67669,7},
{67671,67671,21},
{67672,67679,15},
{67680,67702,7},
{67703,67704,26},
{67705,67711,15},
{67712,67742,7},
{67751,67759,15},
{67808,67826,7},
{67828,67829,7},
{67835,67839,15},
{67840,67861,7},
{67862,67867,15},
{67871,67871,21},
{67872,67897,7},
{67903,67903,21},
{67968,68023,7},
{68028,68029,15},
{68030,68031,7},
{68032,68047,15},
{68050,68095,15},
{68096,68096,7},
{68097,68099,12},
{68101,68102,12},
{68108,68111,12},
{68112,68115,7},
{68117,68119,7},
{68121,68149,7},
{68152,68154,12},
{68159,68159,12},
{68160,68168,15},
{68176,68184,21},
{68192,68220,7},
{68221,68222,15},
{68223,68223,21},
{68224,68252,7},
{68253,68255,15},
{68288,68295,7},
{68296,68296,26},
{68297,68324,7},
{68325,68326,12},
{68331,68335,15},
{68336,68342,21},
{68352,68405,7},
{68409,68415,21},
{68416,68437,7},
{68440,68447,15},
{68448,68466,7},
{68472,68479,15},
{68480,68497,7},
{68505,68508,21},
{68521,68527,15},
{68608,68680,7},
{68736,68786,9},
{68800,68850,5},
{68858,68863,15},
{68864,68899,7},
{68900,68903,12},
{68912,68921,13},
{69216,69246,15},
{69248,69289,7},
{69291,69292,12},
{69293,69293,17},
{69296,69297,7},
{69376,69404,7},
{69405,69414,15},
{69415,69415,7},
{69424,69445,7},
{69446,69456,12},
{69457,69460,15},
{69461,69465,21},
{69552,69572,7},
{69573,69579,15},
{69600,69622,7},
{69632,69632,10},
{69633,69633,12},
{69634,69634,10},
{69635,69687,7},
{69688,69702,12},
{69703,69709,21},
{69714,69733,15},
{69734,69743,13},
{69759,69761,12},
{69762,69762,10},
{69763,69807,7},
{69808,69810,10},
{69811,69814,12},
{69815,69816,10},
{69817,69818,12},
{69819,69820,21},
{69821,69821,2},
{69822,69825,21},
{69837,69837,2},
{69840,69864,7},
{69872,69881,13},
{69888,69890,12},
{69891,69926,7},
{69927,69931,12},
{69932,69932,10},
{69933,69940,12},
{69942,69951,13},
{69952,69955,21},
{69956,69956,7},
{69957,69958,10},
{69959,69959,7},
{69968,70002,7},
{70003,70003,12},
{70004,70005,21},
{70006,70006,7},
{70016,70017,12},
{70018,70018,10},
{70019,70066,7},
{70067,70069,10},
{70070,70078,12},
{70079,70080,10},
{70081,70084,7},
{70085,70088,21},
{70089,70092,12},
{70093,70093,21},
{70094,70094,10},
{70095,70095,12},
{70096,70105,13},
{70106,70106,7},
{70107,70107,21},
{70108,70108,7},
{70109,70111,21},
{70113,70132,15},
{70144,70161,7},
{70163,70187,7},
{70188,70190,10},
{70191,70193,12},
{70194,70195,10},
{70196,70196,12},
{70197,70197,10},
{70198,70199,12},
{70200,70205,21},
{70206,70206,12},
{70272,70278,7},
{70280,70280,7},
{70282,70285,7},
{70287,70301,7},
{70303,70312,7},
{70313,70313,21},
{70320,70366,7},
{70367,70367,12},
{70368,70370,10},
{70371,70378,12},
{70384,70393,13},
{70400,70401,12},
{70402,70403,10},
{70405,70412,7},
{70415,70416,7},
{70419,70440,7},
{70442,70448,7},
{70450,70451,7},
{70453,70457,7},
{70459,70460,12},
{70461,70461,7},
{70462,70463,10},
{70464,70464,12},
{70465,70468,10},
{70471,70472,10},
{70475,70477,10},
{70480,70480,7},
{70487,70487,10},
{70493,70497,7},
{70498,70499,10},
{70502,70508,12},
{70512,70516,12},
{70656,70708,7},
{70709,70711,10},
{70712,70719,12},
{70720,70721,10},
{70722,70724,12},
{70725,70725,10},
{70726,70726,12},
{70727,70730,7},
{70731,70735,21},
{70736,70745,13},
{70746,70747,21},
{70749,70749,21},
{70750,70750,12},
{70751,70753,7},
{70784,70831,7},
{70832,70834,10},
{70835,70840,12},
{70841,70841,10},
{70842,70842,12},
{70843,70846,10},
{70847,70848,12},
{70849,70849,10},
{70850,70851,12},
{70852,70853,7},
{70854,70854,21},
{70855,70855,7},
{70864,70873,13},
{71040,71086,7},
{71087,71089,10},
{71090,71093,12},
{71096,71099,10},
{71100,71101,12},
{71102,71102,10},
{71103,71104,12},
{71105,71127,21},
{71128,71131,7},
{71132,71133,12},
{71168,71215,7},
{71216,71218,10},
{71219,71226,12},
{71227,71228,10},
{71229,71229,12},
{71230,71230,10},
{71231,71232,12},
{71233,71235,21},
{71236,71236,7},
{71248,71257,13},
{71264,71276,21},
{71296,71338,7},
{71339,71339,12},
{71340,71340,10},
{71341,71341,12},
{71342,71343,10},
{71344,71349,12},
{71350,71350,10},
{71351,71351,12},
{71352,71352,7},
{71360,71369,13},
{71424,71450,7},
{71453,71455,12},
{71456,71457,10},
{71458,71461,12},
{71462,71462,10},
{71463,71467,12},
{71472,71481,13},
{71482,71483,15},
{71484,71486,21},
{71487,71487,26},
{71680,71723,7},
{71724,71726,10},
{71727,71735,12},
{71736,71736,10},
{71737,71738,12},
{71739,71739,21},
{71840,71871,9},
{71872,71903,5},
{71904,71913,13},
{71914,71922,15},
{71935,71942,7},
{71945,71945,7},
{71948,71955,7},
{71957,71958,7},
{71960,71983,7},
{71984,71989,10},
{71991,71992,10},
{71995,71996,12},
{71997,71997,10},
{71998,71998,12},
{71999,71999,7},
{72000,72000,10},
{72001,72001,7},
{72002,72002,10},
{72003,72003,12},
{72004,72006,21},
{72016,72025,13},
{72096,72103,7},
{72106,72144,7},
{72145,72147,10},
{72148,72151,12},
{72154,72155,12},
{72156,72159,10},
{72160,72160,12},
{72161,72161,7},
{72162,72162,21},
{72163,72163,7},
{72164,72164,10},
{72192,72192,7},
{72193,72202,12},
{72203,72242,7},
{72243,72248,12},
{72249,72249,10},
{72250,72250,7},
{72251,72254,12},
{72255,72262,21},
{72263,72263,12},
{72272,72272,7},
{72273,72278,12},
{72279,72280,10},
{72281,72283,12},
{72284,72329,7},
{72330,72342,12},
{72343,72343,10},
{72344,72345,12},
{72346,72348,21},
{72349,72349,7},
{72350,72354,21},
{72384,72440,7},
{72704,72712,7},
{72714,72750,7},
{72751,72751,10},
{72752,72758,12},
{72760,72765,12},
{72766,72766,10},
{72767,72767,12},
{72768,72768,7},
{72769,72773,21},
{72784,72793,13},
{72794,72812,15},
{72816,72817,21},
{72818,72847,7},
{72850,72871,12},
{72873,72873,10},
{72874,72880,12},
{72881,72881,10},
{72882,72883,12},
{72884,72884,10},
{72885,72886,12},
{72960,72966,7},
{72968,72969,7},
{72971,73008,7},
{73009,73014,12},
{73018,73018,12},
{73020,73021,12},
{73023,73029,12},
{73030,73030,7},
{73031,73031,12},
{73040,73049,13},
{73056,73061,7},
{73063,73064,7},
{73066,73097,7},
{73098,73102,10},
{73104,73105,12},
{73107,73108,10},
{73109,73109,12},
{73110,73110,10},
{73111,73111,12},
{73112,73112,7},
{73120,73129,13},
{73440,73458,7},
{73459,73460,12},
{73461,73462,10},
{73463,73464,21},
{73648,73648,7},
{73664,73684,15},
{73685,73692,26},
{73693,73696,23},
{73697,73713,26},
{73727,73727,21},
{73728,74649,7},
{74752,74862,14},
{74864,74868,21},
{74880,75075,7},
{77824,78894,7},
{78896,78904,2},
{82944,83526,7},
{92160,92728,7},
{92736,92766,7},
{92768,92777,13},
{92782,92783,21},
{92880,92909,7},
{92912,92916,12},
{92917,92917,21},
{92928,92975,7},
{92976,92982,12},
{92983,92987,21},
{92988,92991,26},
{92992,92995,6},
{92996,92996,21},
{92997,92997,26},
{93008,93017,13},
{93019,93025,15},
{93027,93047,7},
{93053,93071,7},
{93760,93791,9},
{93792,93823,5},
{93824,93846,15},
{93847,93850,21},
{93952,94026,7},
{94031,94031,12},
{94032,94032,7},
{94033,94087,10},
{94095,94098,12},
{94099,94111,6},
{94176,94177,6},
{94178,94178,21},
{94179,94179,6},
{94180,94180,12},
{94192,94193,10},
{94208,100343,7},
{100352,101589,7},
{101632,101640,7},
{110592,110878,7},
{110928,110930,7},
{110948,110951,7},
{110960,111355,7},
{113664,113770,7},
{113776,113788,7},
{113792,113800,7},
{113808,113817,7},
{113820,113820,26},
{113821,113822,12},
{113823,113823,21},
{113824,113827,2},
{118784,119029,26},
{119040,119078,26},
{119081,119140,26},
{119141,119142,10},
{119143,119145,12},
{119146,119148,26},
{119149,119154,10},
{119155,119162,2},
{119163,119170,12},
{119171,119172,26},
{119173,119179,12},
{119180,119209,26},
{119210,119213,12},
{119214,119272,26},
{119296,119361,26},
{119362,119364,12},
{119365,119365,26},
{119520,119539,15},
{119552,119638,26},
{119648,119672,15},
{119808,119833,9},
{119834,119859,5},
{119860,119885,9},
{119886,119892,5},
{119894,119911,5},
{119912,119937,9},
{119938,119963,5},
{119964,119964,9},
{119966,119967,9},
{119970,119970,9},
{119973,119974,9},
{119977,119980,9},
{119982,119989,9},
{119990,119993,5},
{119995,119995,5},
{119997,120003,5},
{120005,120015,5},
{120016,120041,9},
{120042,120067,5},
{120068,120069,9},
{120071,120074,9},
{120077,120084,9},
{120086,120092,9},
{120094,120119,5},
{120120,120121,9},
{120123,120126,9},
{120128,120132,9},
{120134,120134,9},
{120138,120144,9},
{120146,120171,5},
{120172,120197,9},
{120198,120223,5},
{120224,120249,9},
{120250,120275,5},
{120276,120301,9},
{120302,120327,5},
{120328,120353,9},
{120354,120379,5},
{120380,120405,9},
{120406,120431,5},
{120432,120457,9},
{120458,120485,5},
{120488,120512,9},
{120513,120513,25},
{120514,120538,5},
{120539,120539,25},
{120540,120545,5},
{120546,120570,9},
{120571,120571,25},
{120572,120596,5},
{120597,120597,25},
{120598,120603,5},
{120604,120628,9},
{120629,120629,25},
{120630,120654,5},
{120655,120655,25},
{120656,120661,5},
{120662,120686,9},
{120687,120687,25},
{120688,120712,5},
{120713,120713,25},
{120714,120719,5},
{120720,120744,9},
{120745,120745,25},
{120746,120770,5},
{120771,120771,25},
{120772,120777,5},
{120778,120778,9},
{120779,120779,5},
{120782,120831,13},
{120832,121343,26},
{121344,121398,12},
{121399,121402,26},
{121403,121452,12},
{121453,121460,26},
{121461,121461,12},
{121462,121475,26},
{121476,121476,12},
{121477,121478,26},
{121479,121483,21},
{121499,121503,12},
{121505,121519,12},
{122880,122886,12},
{122888,122904,12},
{122907,122913,12},
{122915,122916,12},
{122918,122922,12},
{123136,123180,7},
{123184,123190,12},
{123191,123197,6},
{123200,123209,13},
{123214,123214,7},
{123215,123215,26},
{123584,123627,7},
{123628,123631,12},
{123632,123641,13},
{123647,123647,23},
{124928,125124,7},
{125127,125135,15},
{125136,125142,12},
{125184,125217,9},
{125218,125251,5},
{125252,125258,12},
{125259,125259,6},
{125264,125273,13},
{125278,125279,21},
{126065,126123,15},
{126124,126124,26},
{126125,126127,15},
{126128,126128,23},
{126129,126132,15},
{126209,126253,15},
{126254,126254,26},
{126255,126269,15},
{126464,126467,7},
{126469,126495,7},
{126497,126498,7},
{126500,126500,7},
{126503,126503,7},
{126505,126514,7},
{126516,126519,7},
{126521,126521,7},
{126523,126523,7},
{126530,126530,7},
{126535,126535,7},
{126537,126537,7},
{126539,126539,7},
{126541,126543,7},
{126545,126546,7},
{126548,126548,7},
{126551,126551,7},
{126553,126553,7},
{126555,126555,7},
{126557,126557,7},
{126559,126559,7},
{126561,126562,7},
{126564,126564,7},
{126567,126570,7},
{126572,126578,7},
{126580,126583,7},
{126585,126588,7},
{126590,126590,7},
{126592,126601,7},
{126603,126619,7},
{126625,126627,7},
{126629,126633,7},
{126635,126651,7},
{126704,126705,25},
{126976,127019,26},
{127024,127123,26},
{127136,127150,26},
{127153,127167,26},
{127169,127183,26},
{127185,127221,26},
{127232,127244,15},
{127245,127405,26},
{127462,127490,26},
{127504,127547,26},
{127552,127560,26},
{127568,127569,26},
{127584,127589,26},
{127744,127994,26},
{127995,127999,24},
{128000,128727,26},
{128736,128748,26},
{128752,128764,26},
{128768,128883,26},
{128896,128984,26},
{128992,129003,26},
{129024,129035,26},
{129040,129095,26},
{129104,129113,26},
{129120,129159,26},
{129168,129197,26},
{129200,129201,26},
{129280,129400,26},
{129402,129483,26},
{129485,129619,26},
{129632,129645,26},
{129648,129652,26},
{129656,129658,26},
{129664,129670,26},
{129680,129704,26},
{129712,129718,26},
{129728,129730,26},
{129744,129750,26},
{129792,129938,26},
{129940,129994,26},
{130032,130041,13},
{131072,173789,7},
{173824,177972,7},
{177984,178205,7},
{178208,183969,7},
{183984,191456,7},
{194560,195101,7},
{196608,201546,7},
{917505,917505,2},
{917536,917631,2},
{917760,917999,12},
{983040,1048573,3},
{1048576,1114109,3},
};
static const unsigned t_ccc[][3] = {
{768,788,230},
{789,789,232},
{790,793,220},
{794,794,232},
{795,795,216},
{796,800,220},
{801,802,202},
{803,806,220},
{807,808,202},
{809,819,220},
{820,824,1},
{825,828,220},
{829,836,230},
{837,837,240},
{838,838,230},
{839,841,220},
{842,844,230},
{845,846,220},
{848,850,230},
{851,854,220},
{855,855,230},
{856,856,232},
{857,858,220},
{859,859,230},
{860,860,233},
{861,862,234},
{863,863,233},
{864,865,234},
{866,866,233},
{867,879,230},
{1155,1159,230},
{1425,1425,220},
{1426,1429,230},
{1430,1430,220},
{1431,1433,230},
{1434,1434,222},
{1435,1435,220},
{1436,1441,230},
{1442,1447,220},
{1448,1449,230},
{1450,1450,220},
{1451,1452,230},
{1453,1453,222},
{1454,1454,228},
{1455,1455,230},
{1456,1456,10},
{1457,1457,11},
{1458,1458,12},
{1459,1459,13},
{1460,1460,14},
{1461,1461,15},
{1462,1462,16},
{1463,1463,17},
{1464,1464,18},
{1465,1466,19},
{1467,1467,20},
{1468,1468,21},
{1469,1469,22},
{1471,1471,23},
{1473,1473,24},
{1474,1474,25},
{1476,1476,230},
{1477,1477,220},
{1479,1479,18},
{1552,1559,230},
{1560,1560,30},
{1561,1561,31},
{1562,1562,32},
{1611,1611,27},
{1612,1612,28},
{1613,1613,29},
{1614,1614,30},
{1615,1615,31},
{1616,1616,32},
{1617,1617,33},
{1618,1618,34},
{1619,1620,230},
{1621,1622,220},
{1623,1627,230},
{1628,1628,220},
{1629,1630,230},
{1631,1631,220},
{1648,1648,35},
{1750,1756,230},
{1759,1762,230},
{1763,1763,220},
{1764,1764,230},
{1767,1768,230},
{1770,1770,220},
{1771,1772,230},
{1773,1773,220},
{1809,1809,36},
{1840,1840,230},
{1841,1841,220},
{1842,1843,230},
{1844,1844,220},
{1845,1846,230},
{1847,1849,220},
{1850,1850,230},
{1851,1852,220},
{1853,1853,230},
{1854,1854,220},
{1855,1857,230},
{1858,1858,220},
{1859,1859,230},
{1860,1860,220},
{1861,1861,230},
{1862,1862,220},
{1863,1863,230},
{1864,1864,220},
{1865,1866,230},
{2027,2033,230},
{2034,2034,220},
{2035,2035,230},
{2045,2045,220},
{2070,2073,230},
{2075,2083,230},
{2085,2087,230},
{2089,2093,230},
{2137,2139,220},
{2259,2259,220},
{2260,2273,230},
{2275,2275,220},
{2276,2277,230},
{2278,2278,220},
{2279,2280,230},
{2281,2281,220},
{2282,2284,230},
{2285,2287,220},
{2288,2288,27},
{2289,2289,28},
{2290,2290,29},
{2291,2293,230},
{2294,2294,220},
{2295,2296,230},
{2297,2298,220},
{2299,2303,230},
{2364,2364,7},
{2381,2381,9},
{2385,2385,230},
{2386,2386,220},
{2387,2388,230},
{2492,2492,7},
{2509,2509,9},
{2558,2558,230},
{2620,2620,7},
{2637,2637,9},
{2748,2748,7},
{2765,2765,9},
{2876,2876,7},
{2893,2893,9},
{3021,3021,9},
{3149,3149,9},
{3157,3157,84},
{3158,3158,91},
{3260,3260,7},
{3277,3277,9},
{3387,3388,9},
{3405,3405,9},
{3530,3530,9},
{3640,3641,103},
{3642,3642,9},
{3656,3659,107},
{3768,3769,118},
{3770,3770,9},
{3784,3787,122},
{3864,3865,220},
{3893,3893,220},
{3895,3895,220},
{3897,3897,216},
{3953,3953,129},
{3954,3954,130},
{3956,3956,132},
{3962,3965,130},
{3968,3968,130},
{3970,3971,230},
{3972,3972,9},
{3974,3975,230},
{4038,4038,220},
{4151,4151,7},
{4153,4154,9},
{4237,4237,220},
{4957,4959,230},
{5908,5908,9},
{5940,5940,9},
{6098,6098,9},
{6109,6109,230},
{6313,6313,228},
{6457,6457,222},
{6458,6458,230},
{6459,6459,220},
{6679,6679,230},
{6680,6680,220},
{6752,6752,9},
{6773,6780,230},
{6783,6783,220},
{6832,6836,230},
{6837,6842,220},
{6843,6844,230},
{6845,6845,220},
{6847,6848,220},
{6964,6964,7},
{6980,6980,9},
{7019,7019,230},
{7020,7020,220},
{7021,7027,230},
{7082,7083,9},
{7142,7142,7},
{7154,7155,9},
{7223,7223,7},
{7376,7378,230},
{7380,7380,1},
{7381,7385,220},
{7386,7387,230},
{7388,7391,220},
{7392,7392,230},
{7394,7400,1},
{7405,7405,220},
{7412,7412,230},
{7416,7417,230},
{7616,7617,230},
{7618,7618,220},
{7619,7625,230},
{7626,7626,220},
{7627,7628,230},
{7629,7629,234},
{7630,7630,214},
{7631,7631,220},
{7632,7632,202},
{7633,7669,230},
{7670,7670,232},
{7671,7672,228},
{7673,7673,220},
{7675,7675,230},
{7676,7676,233},
{7677,7677,220},
{7678,7678,230},
{7679,7679,220},
{8400,8401,230},
{8402,8403,1},
{8404,8407,230},
{8408,8410,1},
{8411,8412,230},
{8417,8417,230},
{8421,8422,1},
{8423,8423,230},
{8424,8424,220},
{8425,8425,230},
{8426,8427,1},
{8428,8431,220},
{8432,8432,230},
{11503,11505,230},
{11647,11647,9},
{11744,11775,230},
{12330,12330,218},
{12331,12331,228},
{12332,12332,232},
{12333,12333,222},
{12334,12335,224},
{12441,12442,8},
{42607,42607,230},
{42612,42621,230},
{42654,42655,230},
{42736,42737,230},
{43014,43014,9},
{43052,43052,9},
{43204,43204,9},
{43232,43249,230},
{43307,43309,220},
{43347,43347,9},
{43443,43443,7},
{43456,43456,9},
{43696,43696,230},
{43698,43699,230},
{43700,43700,220},
{43703,43704,230},
{43710,43711,230},
{43713,43713,230},
{43766,43766,9},
{44013,44013,9},
{64286,64286,26},
{65056,65062,230},
{65063,65069,220},
{65070,65071,230},
{66045,66045,220},
{66272,66272,220},
{66422,66426,230},
{68109,68109,220},
{68111,68111,230},
{68152,68152,230},
{68153,68153,1},
{68154,68154,220},
{68159,68159,9},
{68325,68325,230},
{68326,68326,220},
{68900,68903,230},
{69291,69292,230},
{69446,69447,220},
{69448,69450,230},
{69451,69451,220},
{69452,69452,230},
{69453,69456,220},
{69702,69702,9},
{69759,69759,9},
{69817,69817,9},
{69818,69818,7},
{69888,69890,230},
{69939,69940,9},
{70003,70003,7},
{70080,70080,9},
{70090,70090,7},
{70197,70197,9},
{70198,70198,7},
{70377,70377,7},
{70378,70378,9},
{70459,70460,7},
{70477,70477,9},
{70502,70508,230},
{70512,70516,230},
{70722,70722,9},
{70726,70726,7},
{70750,70750,230},
{70850,70850,9},
{70851,70851,7},
{71103,71103,9},
{71104,71104,7},
{71231,71231,9},
{71350,71350,9},
{71351,71351,7},
{71467,71467,9},
{71737,71737,9},
{71738,71738,7},
{71997,71998,9},
{72003,72003,7},
{72160,72160,9},
{72244,72244,9},
{72263,72263,9},
{72345,72345,9},
{72767,72767,9},
{73026,73026,7},
{73028,73029,9},
{73111,73111,9},
{92912,92916,1},
{92976,92982,230},
{94192,94193,6},
{113822,113822,1},
{119141,119142,216},
{119143,119145,1},
{119149,119149,226},
{119150,119154,216},
{119163,119170,220},
{119173,119177,230},
{119178,119179,220},
{119210,119213,230},
{119362,119364,230},
{122880,122886,230},
{122888,122904,230},
{122907,122913,230},
{122915,122916,230},
{122918,122922,230},
{123184,123190,230},
{123628,123631,230},
{125136,125142,220},
{125252,125257,230},
{125258,125258,7},
};
static const unsigned t_bidi[][3] = {
{0,8,9},
{9,9,11},
{10,10,10},
{11,11,11},
{12,12,12},
{13,13,10},
{14,27,9},
{28,30,10},
{31,31,11},
{32,32,12},
{33,34,13},
{35,37,5},
{38,42,13},
{43,43,4},
{44,44,7},
{45,45,4},
{46,47,7},
{48,57,3},
{58,58,7},
{59,64,13},
{65,90,0},
{91,96,13},
{97,122,0},
{123,126,13},
{127,132,9},
{133,133,10},
{134,159,9},
{160,160,7},
{161,161,13},
{162,165,5},
{166,169,13},
{170,170,0},
{171,172,13},
{173,173,9},
{174,175,13},
{176,177,5},
{178,179,3},
{180,180,13},
{181,181,0},
{182,184,13},
{185,185,3},
{186,186,0},
{187,191,13},
{192,214,0},
{215,215,13},
{216,246,0},
{247,247,13},
{248,696,0},
{697,698,13},
{699,705,0},
{706,719,13},
{720,721,0},
{722,735,13},
{736,740,0},
{741,749,13},
{750,750,0},
{751,767,13},
{768,879,8},
{880,883,0},
{884,885,13},
{886,887,0},
{890,893,0},
{894,894,13},
{895,895,0},
{900,901,13},
{902,902,0},
{903,903,13},
{904,906,0},
{908,908,0},
{910,929,0},
{931,1013,0},
{1014,1014,13},
{1015,1154,0},
{1155,1161,8},
{1162,1327,0},
{1329,1366,0},
{1369,1417,0},
{1418,1418,13},
{1421,1422,13},
{1423,1423,5},
{1425,1469,8},
{1470,1470,1},
{1471,1471,8},
{1472,1472,1},
{1473,1474,8},
{1475,1475,1},
{1476,1477,8},
{1478,1478,1},
{1479,1479,8},
{1488,1514,1},
{1519,1524,1},
{1536,1541,6},
{1542,1543,13},
{1544,1544,2},
{1545,1546,5},
{1547,1547,2},
{1548,1548,7},
{1549,1549,2},
{1550,1551,13},
{1552,1562,8},
{1563,1564,2},
{1566,1610,2},
{1611,1631,8},
{1632,1641,6},
{1642,1642,5},
{1643,1644,6},
{1645,1647,2},
{1648,1648,8},
{1649,1749,2},
{1750,1756,8},
{1757,1757,6},
{1758,1758,13},
{1759,1764,8},
{1765,1766,2},
{1767,1768,8},
{1769,1769,13},
{1770,1773,8},
{1774,1775,2},
{1776,1785,3},
{1786,1805,2},
{1807,1808,2},
{1809,1809,8},
{1810,1839,2},
{1840,1866,8},
{1869,1957,2},
{1958,1968,8},
{1969,1969,2},
{1984,2026,1},
{2027,2035,8},
{2036,2037,1},
{2038,2041,13},
{2042,2042,1},
{2045,2045,8},
{2046,2069,1},
{2070,2073,8},
{2074,2074,1},
{2075,2083,8},
{2084,2084,1},
{2085,2087,8},
{2088,2088,1},
{2089,2093,8},
{2096,2110,1},
{2112,2136,1},
{2137,2139,8},
{2142,2142,1},
{2144,2154,2},
{2208,2228,2},
{2230,2247,2},
{2259,2273,8},
{2274,2274,6},
{2275,2306,8},
{2307,2361,0},
{2362,2362,8},
{2363,2363,0},
{2364,2364,8},
{2365,2368,0},
{2369,2376,8},
{2377,2380,0},
{2381,2381,8},
{2382,2384,0},
{2385,2391,8},
{2392,2401,0},
{2402,2403,8},
{2404,2432,0},
{2433,2433,8},
{2434,2435,0},
{2437,2444,0},
{2447,2448,0},
{2451,2472,0},
{2474,2480,0},
{2482,2482,0},
{2486,2489,0},
{2492,2492,8},
{2493,2496,0},
{2497,2500,8},
{2503,2504,0},
{2507,2508,0},
{2509,2509,8},
{2510,2510,0},
{2519,2519,0},
{2524,2525,0},
{2527,2529,0},
{2530,2531,8},
{2534,2545,0},
{2546,2547,5},
{2548,2554,0},
{2555,2555,5},
{2556,2557,0},
{2558,2558,8},
{2561,2562,8},
{2563,2563,0},
{2565,2570,0},
{2575,2576,0},
{2579,2600,0},
{2602,2608,0},
{2610,2611,0},
{2613,2614,0},
{2616,2617,0},
{2620,2620,8},
{2622,2624,0},
{2625,2626,8},
{2631,2632,8},
{2635,2637,8},
{2641,2641,8},
{2649,2652,0},
{2654,2654,0},
{2662,2671,0},
{2672,2673,8},
{2674,2676,0},
{2677,2677,8},
{2678,2678,0},
{2689,2690,8},
{2691,2691,0},
{2693,2701,0},
{2703,2705,0},
{2707,2728,0},
{2730,2736,0},
{2738,2739,0},
{2741,2745,0},
{2748,2748,8},
{2749,2752,0},
{2753,2757,8},
{2759,2760,8},
{2761,2761,0},
{2763,2764,0},
{2765,2765,8},
{2768,2768,0},
{2784,2785,0},
{2786,2787,8},
{2790,2800,0},
{2801,2801,5},
{2809,2809,0},
{2810,2815,8},
{2817,2817,8},
{2818,2819,0},
{2821,2828,0},
{2831,2832,0},
{2835,2856,0},
{2858,2864,0},
{2866,2867,0},
{2869,2873,0},
{2876,2876,8},
{2877,2878,0},
{2879,2879,8},
{2880,2880,0},
{2881,2884,8},
{2887,2888,0},
{2891,2892,0},
{2893,2893,8},
{2901,2902,8},
{2903,2903,0},
{2908,2909,0},
{2911,2913,0},
{2914,2915,8},
{2918,2935,0},
{2946,2946,8},
{2947,2947,0},
{2949,2954,0},
{2958,2960,0},
{2962,2965,0},
{2969,2970,0},
{2972,2972,0},
{2974,2975,0},
{2979,2980,0},
{2984,2986,0},
{2990,3001,0},
{3006,3007,0},
{3008,3008,8},
{3009,3010,0},
{3014,3016,0},
{3018,3020,0},
{3021,3021,8},
{3024,3024,0},
{3031,3031,0},
{3046,3058,0},
{3059,3064,13},
{3065,3065,5},
{3066,3066,13},
{3072,3072,8},
{3073,3075,0},
{3076,3076,8},
{3077,3084,0},
{3086,3088,0},
{3090,3112,0},
{3114,3129,0},
{3133,3133,0},
{3134,3136,8},
{3137,3140,0},
{3142,3144,8},
{3146,3149,8},
{3157,3158,8},
{3160,3162,0},
{3168,3169,0},
{3170,3171,8},
{3174,3183,0},
{3191,3191,0},
{3192,3198,13},
{3199,3200,0},
{3201,3201,8},
{3202,3212,0},
{3214,3216,0},
{3218,3240,0},
{3242,3251,0},
{3253,3257,0},
{3260,3260,8},
{3261,3268,0},
{3270,3272,0},
{3274,3275,0},
{3276,3277,8},
{3285,3286,0},
{3294,3294,0},
{3296,3297,0},
{3298,3299,8},
{3302,3311,0},
{3313,3314,0},
{3328,3329,8},
{3330,3340,0},
{3342,3344,0},
{3346,3386,0},
{3387,3388,8},
{3389,3392,0},
{3393,3396,8},
{3398,3400,0},
{3402,3404,0},
{3405,3405,8},
{3406,3407,0},
{3412,3425,0},
{3426,3427,8},
{3430,3455,0},
{3457,3457,8},
{3458,3459,0},
{3461,3478,0},
{3482,3505,0},
{3507,3515,0},
{3517,3517,0},
{3520,3526,0},
{3530,3530,8},
{3535,3537,0},
{3538,3540,8},
{3542,3542,8},
{3544,3551,0},
{3558,3567,0},
{3570,3572,0},
{3585,3632,0},
{3633,3633,8},
{3634,3635,0},
{3636,3642,8},
{3647,3647,5},
{3648,3654,0},
{3655,3662,8},
{3663,3675,0},
{3713,3714,0},
{3716,3716,0},
{3718,3722,0},
{3724,3747,0},
{3749,3749,0},
{3751,3760,0},
{3761,3761,8},
{3762,3763,0},
{3764,3772,8},
{3773,3773,0},
{3776,3780,0},
{3782,3782,0},
{3784,3789,8},
{3792,3801,0},
{3804,3807,0},
{3840,3863,0},
{3864,3865,8},
{3866,3892,0},
{3893,3893,8},
{3894,3894,0},
{3895,3895,8},
{3896,3896,0},
{3897,3897,8},
{3898,3901,13},
{3902,3911,0},
{3913,3948,0},
{3953,3966,8},
{3967,3967,0},
{3968,3972,8},
{3973,3973,0},
{3974,3975,8},
{3976,3980,0},
{3981,3991,8},
{3993,4028,8},
{4030,4037,0},
{4038,4038,8},
{4039,4044,0},
{4046,4058,0},
{4096,4140,0},
{4141,4144,8},
{4145,4145,0},
{4146,4151,8},
{4152,4152,0},
{4153,4154,8},
{4155,4156,0},
{4157,4158,8},
{4159,4183,0},
{4184,4185,8},
{4186,4189,0},
{4190,4192,8},
{4193,4208,0},
{4209,4212,8},
{4213,4225,0},
{4226,4226,8},
{4227,4228,0},
{4229,4230,8},
{4231,4236,0},
{4237,4237,8},
{4238,4252,0},
{4253,4253,8},
{4254,4293,0},
{4295,4295,0},
{4301,4301,0},
{4304,4680,0},
{4682,4685,0},
{4688,4694,0},
{4696,4696,0},
{4698,4701,0},
{4704,4744,0},
{4746,4749,0},
{4752,4784,0},
{4786,4789,0},
{4792,4798,0},
{4800,4800,0},
{4802,4805,0},
{4808,4822,0},
{4824,4880,0},
{4882,4885,0},
{4888,4954,0},
{4957,4959,8},
{4960,4988,0},
{4992,5007,0},
{5008,5017,13},
{5024,5109,0},
{5112,5117,0},
{5120,5120,13},
{5121,5759,0},
{5760,5760,12},
{5761,5786,0},
{5787,5788,13},
{5792,5880,0},
{5888,5900,0},
{5902,5905,0},
{5906,5908,8},
{5920,5937,0},
{5938,5940,8},
{5941,5942,0},
{5952,5969,0},
{5970,5971,8},
{5984,5996,0},
{5998,6000,0},
{6002,6003,8},
{6016,6067,0},
{6068,6069,8},
{6070,6070,0},
{6071,6077,8},
{6078,6085,0},
{6086,6086,8},
{6087,6088,0},
{6089,6099,8},
{6100,6106,0},
{6107,6107,5},
{6108,6108,0},
{6109,6109,8},
{6112,6121,0},
{6128,6137,13},
{6144,6154,13},
{6155,6157,8},
{6158,6158,9},
{6160,6169,0},
{6176,6264,0},
{6272,6276,0},
{6277,6278,8},
{6279,6312,0},
{6313,6313,8},
{6314,6314,0},
{6320,6389,0},
{6400,6430,0},
{6432,6434,8},
{6435,6438,0},
{6439,6440,8},
{6441,6443,0},
{6448,6449,0},
{6450,6450,8},
{6451,6456,0},
{6457,6459,8},
{6464,6464,13},
{6468,6469,13},
{6470,6509,0},
{6512,6516,0},
{6528,6571,0},
{6576,6601,0},
{6608,6618,0},
{6622,6655,13},
{6656,6678,0},
{6679,6680,8},
{6681,6682,0},
{6683,6683,8},
{6686,6741,0},
{6742,6742,8},
{6743,6743,0},
{6744,6750,8},
{6752,6752,8},
{6753,6753,0},
{6754,6754,8},
{6755,6756,0},
{6757,6764,8},
{6765,6770,0},
{6771,6780,8},
{6783,6783,8},
{6784,6793,0},
{6800,6809,0},
{6816,6829,0},
{6832,6848,8},
{6912,6915,8},
{6916,6963,0},
{6964,6964,8},
{6965,6965,0},
{6966,6970,8},
{6971,6971,0},
{6972,6972,8},
{6973,6977,0},
{6978,6978,8},
{6979,6987,0},
{6992,7018,0},
{7019,7027,8},
{7028,7036,0},
{7040,7041,8},
{7042,7073,0},
{7074,7077,8},
{7078,7079,0},
{7080,7081,8},
{7082,7082,0},
{7083,7085,8},
{7086,7141,0},
{7142,7142,8},
{7143,7143,0},
{7144,7145,8},
{7146,7148,0},
{7149,7149,8},
{7150,7150,0},
{7151,7153,8},
{7154,7155,0},
{7164,7211,0},
{7212,7219,8},
{7220,7221,0},
{7222,7223,8},
{7227,7241,0},
{7245,7304,0},
{7312,7354,0},
{7357,7367,0},
{7376,7378,8},
{7379,7379,0},
{7380,7392,8},
{7393,7393,0},
{7394,7400,8},
{7401,7404,0},
{7405,7405,8},
{7406,7411,0},
{7412,7412,8},
{7413,7415,0},
{7416,7417,8},
{7418,7418,0},
{7424,7615,0},
{7616,7673,8},
{7675,7679,8},
{7680,7957,0},
{7960,7965,0},
{7968,8005,0},
{8008,8013,0},
{8016,8023,0},
{8025,8025,0},
{8027,8027,0},
{8029,8029,0},
{8031,8061,0},
{8064,8116,0},
{8118,8124,0},
{8125,8125,13},
{8126,8126,0},
{8127,8129,13},
{8130,8132,0},
{8134,8140,0},
{8141,8143,13},
{8144,8147,0},
{8150,8155,0},
{8157,8159,13},
{8160,8172,0},
{8173,8175,13},
{8178,8180,0},
{8182,8188,0},
{8189,8190,13},
{8192,8202,12},
{8203,8205,9},
{8206,8206,0},
{8207,8207,1},
{8208,8231,13},
{8232,8232,12},
{8233,8233,10},
{8234,8234,14},
{8235,8235,16},
{8236,8236,18},
{8237,8237,15},
{8238,8238,17},
{8239,8239,7},
{8240,8244,5},
{8245,8259,13},
{8260,8260,7},
{8261,8286,13},
{8287,8287,12},
{8288,8292,9},
{8294,8294,19},
{8295,8295,20},
{8296,8296,21},
{8297,8297,22},
{8298,8303,9},
{8304,8304,3},
{8305,8305,0},
{8308,8313,3},
{8314,8315,4},
{8316,8318,13},
{8319,8319,0},
{8320,8329,3},
{8330,8331,4},
{8332,8334,13},
{8336,8348,0},
{8352,8383,5},
{8400,8432,8},
{8448,8449,13},
{8450,8450,0},
{8451,8454,13},
{8455,8455,0},
{8456,8457,13},
{8458,8467,0},
{8468,8468,13},
{8469,8469,0},
{8470,8472,13},
{8473,8477,0},
{8478,8483,13},
{8484,8484,0},
{8485,8485,13},
{8486,8486,0},
{8487,8487,13},
{8488,8488,0},
{8489,8489,13},
{8490,8493,0},
{8494,8494,5},
{8495,8505,0},
{8506,8507,13},
{8508,8511,0},
{8512,8516,13},
{8517,8521,0},
{8522,8525,13},
{8526,8527,0},
{8528,8543,13},
{8544,8584,0},
{8585,8587,13},
{8592,8721,13},
{8722,8722,4},
{8723,8723,5},
{8724,9013,13},
{9014,9082,0},
{9083,9108,13},
{9109,9109,0},
{9110,9254,13},
{9280,9290,13},
{9312,9351,13},
{9352,9371,3},
{9372,9449,0},
{9450,9899,13},
{9900,9900,0},
{9901,10239,13},
{10240,10495,0},
{10496,11123,13},
{11126,11157,13},
{11159,11263,13},
{11264,11310,0},
{11312,11358,0},
{11360,11492,0},
{11493,11498,13},
{11499,11502,0},
{11503,11505,8},
{11506,11507,0},
{11513,11519,13},
{11520,11557,0},
{11559,11559,0},
{11565,11565,0},
{11568,11623,0},
{11631,11632,0},
{11647,11647,8},
{11648,11670,0},
{11680,11686,0},
{11688,11694,0},
{11696,11702,0},
{11704,11710,0},
{11712,11718,0},
{11720,11726,0},
{11728,11734,0},
{11736,11742,0},
{11744,11775,8},
{11776,11858,13},
{11904,11929,13},
{11931,12019,13},
{12032,12245,13},
{12272,12283,13},
{12288,12288,12},
{12289,12292,13},
{12293,12295,0},
{12296,12320,13},
{12321,12329,0},
{12330,12333,8},
{12334,12335,0},
{12336,12336,13},
{12337,12341,0},
{12342,12343,13},
{12344,12348,0},
{12349,12351,13},
{12353,12438,0},
{12441,12442,8},
{12443,12444,13},
{12445,12447,0},
{12448,12448,13},
{12449,12538,0},
{12539,12539,13},
{12540,12543,0},
{12549,12591,0},
{12593,12686,0},
{12688,12735,0},
{12736,12771,13},
{12784,12828,0},
{12829,12830,13},
{12832,12879,0},
{12880,12895,13},
{12896,12923,0},
{12924,12926,13},
{12927,12976,0},
{12977,12991,13},
{12992,13003,0},
{13004,13007,13},
{13008,13174,0},
{13175,13178,13},
{13179,13277,0},
{13278,13279,13},
{13280,13310,0},
{13311,13311,13},
{13312,19903,0},
{19904,19967,13},
{19968,40956,0},
{40960,42124,0},
{42128,42182,13},
{42192,42508,0},
{42509,42511,13},
{42512,42539,0},
{42560,42606,0},
{42607,42610,8},
{42611,42611,13},
{42612,42621,8},
{42622,42623,13},
{42624,42653,0},
{42654,42655,8},
{42656,42735,0},
{42736,42737,8},
{42738,42743,0},
{42752,42785,13},
{42786,42887,0},
{42888,42888,13},
{42889,42943,0},
{42946,42954,0},
{42997,43009,0},
{43010,43010,8},
{43011,43013,0},
{43014,43014,8},
{43015,43018,0},
{43019,43019,8},
{43020,43044,0},
{43045,43046,8},
{43047,43047,0},
{43048,43051,13},
{43052,43052,8},
{43056,43063,0},
{43064,43065,5},
{43072,43123,0},
{43124,43127,13},
{43136,43203,0},
{43204,43205,8},
{43214,43225,0},
{43232,43249,8},
{43250,43262,0},
{43263,43263,8},
{43264,43301,0},
{43302,43309,8},
{43310,43334,0},
{43335,43345,8},
{43346,43347,0},
{43359,43388,0},
{43392,43394,8},
{43395,43442,0},
{43443,43443,8},
{43444,43445,0},
{43446,43449,8},
{43450,43451,0},
{43452,43453,8},
{43454,43469,0},
{43471,43481,0},
{43486,43492,0},
{43493,43493,8},
{43494,43518,0},
{43520,43560,0},
{43561,43566,8},
{43567,43568,0},
{43569,43570,8},
{43571,43572,0},
{43573,43574,8},
{43584,43586,0},
{43587,43587,8},
{43588,43595,0},
{43596,43596,8},
{43597,43597,0},
{43600,43609,0},
{43612,43643,0},
{43644,43644,8},
{43645,43695,0},
{43696,43696,8},
{43697,43697,0},
{43698,43700,8},
{43701,43702,0},
{43703,43704,8},
{43705,43709,0},
{43710,43711,8},
{43712,43712,0},
{43713,43713,8},
{43714,43714,0},
{43739,43755,0},
{43756,43757,8},
{43758,43765,0},
{43766,43766,8},
{43777,43782,0},
{43785,43790,0},
{43793,43798,0},
{43808,43814,0},
{43816,43822,0},
{43824,43881,0},
{43882,43883,13},
{43888,44004,0},
{44005,44005,8},
{44006,44007,0},
{44008,44008,8},
{44009,44012,0},
{44013,44013,8},
{44016,44025,0},
{44032,55203,0},
{55216,55238,0},
{55243,55291,0},
{55296,64109,0},
{64112,64217,0},
{64256,64262,0},
{64275,64279,0},
{64285,64285,1},
{64286,64286,8},
{64287,64296,1},
{64297,64297,4},
{64298,64310,1},
{64312,64316,1},
{64318,64318,1},
{64320,64321,1},
{64323,64324,1},
{64326,64335,1},
{64336,64449,2},
{64467,64829,2},
{64830,64831,13},
{64848,64911,2},
{64914,64967,2},
{65008,65020,2},
{65021,65021,13},
{65024,65039,8},
{65040,65049,13},
{65056,65071,8},
{65072,65103,13},
{65104,65104,7},
{65105,65105,13},
{65106,65106,7},
{65108,65108,13},
{65109,65109,7},
{65110,65118,13},
{65119,65119,5},
{65120,65121,13},
{65122,65123,4},
{65124,65126,13},
{65128,65128,13},
{65129,65130,5},
{65131,65131,13},
{65136,65140,2},
{65142,65276,2},
{65279,65279,9},
{65281,65282,13},
{65283,65285,5},
{65286,65290,13},
{65291,65291,4},
{65292,65292,7},
{65293,65293,4},
{65294,65295,7},
{65296,65305,3},
{65306,65306,7},
{65307,65312,13},
{65313,65338,0},
{65339,65344,13},
{65345,65370,0},
{65371,65381,13},
{65382,65470,0},
{65474,65479,0},
{65482,65487,0},
{65490,65495,0},
{65498,65500,0},
{65504,65505,5},
{65506,65508,13},
{65509,65510,5},
{65512,65518,13},
{65529,65533,13},
{65536,65547,0},
{65549,65574,0},
{65576,65594,0},
{65596,65597,0},
{65599,65613,0},
{65616,65629,0},
{65664,65786,0},
{65792,65792,0},
{65793,65793,13},
{65794,65794,0},
{65799,65843,0},
{65847,65855,0},
{65856,65932,13},
{65933,65934,0},
{65936,65948,13},
{65952,65952,13},
{66000,66044,0},
{66045,66045,8},
{66176,66204,0},
{66208,66256,0},
{66272,66272,8},
{66273,66299,3},
{66304,66339,0},
{66349,66378,0},
{66384,66421,0},
{66422,66426,8},
{66432,66461,0},
{66463,66499,0},
{66504,66517,0},
{66560,66717,0},
{66720,66729,0},
{66736,66771,0},
{66776,66811,0},
{66816,66855,0},
{66864,66915,0},
{66927,66927,0},
{67072,67382,0},
{67392,67413,0},
{67424,67431,0},
{67584,67589,1},
{67592,67592,1},
{67594,67637,1},
{67639,67640,1},
{67644,67644,1},
{67647,67669,1},
{67671,67742,1},
{67751,67759,1},
{67808,67826,1},
{67828,67829,1},
{67835,67867,1},
{67871,67871,13},
{67872,67897,1},
{67903,67903,1},
{67968,68023,1},
{68028,68047,1},
{68050,68096,1},
{68097,68099,8},
{68101,68102,8},
{68108,68111,8},
{68112,68115,1},
{68117,68119,1},
{68121,68149,1},
{68152,68154,8},
{68159,68159,8},
{68160,68168,1},
{68176,68184,1},
{68192,68255,1},
{68288,68324,1},
{68325,68326,8},
{68331,68342,1},
{68352,68405,1},
{68409,68415,13},
{68416,68437,1},
{68440,68466,1},
{68472,68497,1},
{68505,68508,1},
{68521,68527,1},
{68608,68680,1},
{68736,68786,1},
{68800,68850,1},
{68858,68863,1},
{68864,68899,2},
{68900,68903,8},
{68912,68921,6},
{69216,69246,6},
{69248,69289,1},
{69291,69292,8},
{69293,69293,1},
{69296,69297,1},
{69376,69415,1},
{69424,69445,2},
{69446,69456,8},
{69457,69465,2},
{69552,69579,1},
{69600,69622,1},
{69632,69632,0},
{69633,69633,8},
{69634,69687,0},
{69688,69702,8},
{69703,69709,0},
{69714,69733,13},
{69734,69743,0},
{69759,69761,8},
{69762,69810,0},
{69811,69814,8},
{69815,69816,0},
{69817,69818,8},
{69819,69825,0},
{69837,69837,0},
{69840,69864,0},
{69872,69881,0},
{69888,69890,8},
{69891,69926,0},
{69927,69931,8},
{69932,69932,0},
{69933,69940,8},
{69942,69959,0},
{69968,70002,0},
{70003,70003,8},
{70004,70006,0},
{70016,70017,8},
{70018,70069,0},
{70070,70078,8},
{70079,70088,0},
{70089,70092,8},
{70093,70094,0},
{70095,70095,8},
{70096,70111,0},
{70113,70132,0},
{70144,70161,0},
{70163,70190,0},
{70191,70193,8},
{70194,70195,0},
{70196,70196,8},
{70197,70197,0},
{70198,70199,8},
{70200,70205,0},
{70206,70206,8},
{70272,70278,0},
{70280,70280,0},
{70282,70285,0},
{70287,70301,0},
{70303,70313,0},
{70320,70366,0},
{70367,70367,8},
{70368,70370,0},
{70371,70378,8},
{70384,70393,0},
{70400,70401,8},
{70402,70403,0},
{70405,70412,0},
{70415,70416,0},
{70419,70440,0},
{70442,70448,0},
{70450,70451,0},
{70453,70457,0},
{70459,70460,8},
{70461,70463,0},
{70464,70464,8},
{70465,70468,0},
{70471,70472,0},
{70475,70477,0},
{70480,70480,0},
{70487,70487,0},
{70493,70499,0},
{70502,70508,8},
{70512,70516,8},
{70656,70711,0},
{70712,70719,8},
{70720,70721,0},
{70722,70724,8},
{70725,70725,0},
{70726,70726,8},
{70727,70747,0},
{70749,70749,0},
{70750,70750,8},
{70751,70753,0},
{70784,70834,0},
{70835,70840,8},
{70841,70841,0},
{70842,70842,8},
{70843,70846,0},
{70847,70848,8},
{70849,70849,0},
{70850,70851,8},
{70852,70855,0},
{70864,70873,0},
{71040,71089,0},
{71090,71093,8},
{71096,71099,0},
{71100,71101,8},
{71102,71102,0},
{71103,71104,8},
{71105,71131,0},
{71132,71133,8},
{71168,71218,0},
{71219,71226,8},
{71227,71228,0},
{71229,71229,8},
{71230,71230,0},
{71231,71232,8},
{71233,71236,0},
{71248,71257,0},
{71264,71276,13},
{71296,71338,0},
{71339,71339,8},
{71340,71340,0},
{71341,71341,8},
{71342,71343,0},
{71344,71349,8},
{71350,71350,0},
{71351,71351,8},
{71352,71352,0},
{71360,71369,0},
{71424,71450,0},
{71453,71455,8},
{71456,71457,0},
{71458,71461,8},
{71462,71462,0},
{71463,71467,8},
{71472,71487,0},
{71680,71726,0},
{71727,71735,8},
{71736,71736,0},
{71737,71738,8},
{71739,71739,0},
{71840,71922,0},
{71935,71942,0},
{71945,71945,0},
{71948,71955,0},
{71957,71958,0},
{71960,71989,0},
{71991,71992,0},
{71995,71996,8},
{71997,71997,0},
{71998,71998,8},
{71999,72002,0},
{72003,72003,8},
{72004,72006,0},
{72016,72025,0},
{72096,72103,0},
{72106,72147,0},
{72148,72151,8},
{72154,72155,8},
{72156,72159,0},
{72160,72160,8},
{72161,72164,0},
{72192,72192,0},
{72193,72198,8},
{72199,72200,0},
{72201,72202,8},
{72203,72242,0},
{72243,72248,8},
{72249,72250,0},
{72251,72254,8},
{72255,72262,0},
{72263,72263,8},
{72272,72272,0},
{72273,72278,8},
{72279,72280,0},
{72281,72283,8},
{72284,72329,0},
{72330,72342,8},
{72343,72343,0},
{72344,72345,8},
{72346,72354,0},
{72384,72440,0},
{72704,72712,0},
{72714,72751,0},
{72752,72758,8},
{72760,72765,8},
{72766,72773,0},
{72784,72812,0},
{72816,72847,0},
{72850,72871,8},
{72873,72873,0},
{72874,72880,8},
{72881,72881,0},
{72882,72883,8},
{72884,72884,0},
{72885,72886,8},
{72960,72966,0},
{72968,72969,0},
{72971,73008,0},
{73009,73014,8},
{73018,73018,8},
{73020,73021,8},
{73023,73029,8},
{73030,73030,0},
{73031,73031,8},
{73040,73049,0},
{73056,73061,0},
{73063,73064,0},
{73066,73102,0},
{73104,73105,8},
{73107,73108,0},
{73109,73109,8},
{73110,73110,0},
{73111,73111,8},
{73112,73112,0},
{73120,73129,0},
{73440,73458,0},
{73459,73460,8},
{73461,73464,0},
{73648,73648,0},
{73664,73684,0},
{73685,73692,13},
{73693,73696,5},
{73697,73713,13},
{73727,74649,0},
{74752,74862,0},
{74864,74868,0},
{74880,75075,0},
{77824,78894,0},
{78896,78904,0},
{82944,83526,0},
{92160,92728,0},
{92736,92766,0},
{92768,92777,0},
{92782,92783,0},
{92880,92909,0},
{92912,92916,8},
{92917,92917,0},
{92928,92975,0},
{92976,92982,8},
{92983,92997,0},
{93008,93017,0},
{93019,93025,0},
{93027,93047,0},
{93053,93071,0},
{93760,93850,0},
{93952,94026,0},
{94031,94031,8},
{94032,94087,0},
{94095,94098,8},
{94099,94111,0},
{94176,94177,0},
{94178,94178,13},
{94179,94179,0},
{94180,94180,8},
{94192,94193,0},
{94208,100343,0},
{100352,101589,0},
{101632,101640,0},
{110592,110878,0},
{110928,110930,0},
{110948,110951,0},
{110960,111355,0},
{113664,113770,0},
{113776,113788,0},
{113792,113800,0},
{113808,113817,0},
{113820,113820,0},
{113821,113822,8},
{113823,113823,0},
{113824,113827,9},
{118784,119029,0},
{119040,119078,0},
{119081,119142,0},
{119143,119145,8},
{119146,119154,0},
{119155,119162,9},
{119163,119170,8},
{119171,119172,0},
{119173,119179,8},
{119180,119209,0},
{119210,119213,8},
{119214,119272,0},
{119296,119361,13},
{119362,119364,8},
{119365,119365,13},
{119520,119539,0},
{119552,119638,13},
{119648,119672,0},
{119808,119892,0},
{119894,119964,0},
{119966,119967,0},
{119970,119970,0},
{119973,119974,0},
{119977,119980,0},
{119982,119993,0},
{119995,119995,0},
{119997,120003,0},
{120005,120069,0},
{120071,120074,0},
{120077,120084,0},
{120086,120092,0},
{120094,120121,0},
{120123,120126,0},
{120128,120132,0},
{120134,120134,0},
{120138,120144,0},
{120146,120485,0},
{120488,120538,0},
{120539,120539,13},
{120540,120596,0},
{120597,120597,13},
{120598,120654,0},
{120655,120655,13},
{120656,120712,0},
{120713,120713,13},
{120714,120770,0},
{120771,120771,13},
{120772,120779,0},
{120782,120831,3},
{120832,121343,0},
{121344,121398,8},
{121399,121402,0},
{121403,121452,8},
{121453,121460,0},
{121461,121461,8},
{121462,121475,0},
{121476,121476,8},
{121477,121483,0},
{121499,121503,8},
{121505,121519,8},
{122880,122886,8},
{122888,122904,8},
{122907,122913,8},
{122915,122916,8},
{122918,122922,8},
{123136,123180,0},
{123184,123190,8},
{123191,123197,0},
{123200,123209,0},
{123214,123215,0},
{123584,123627,0},
{123628,123631,8},
{123632,123641,0},
{123647,123647,5},
{124928,125124,1},
{125127,125135,1},
{125136,125142,8},
{125184,125251,1},
{125252,125258,8},
{125259,125259,1},
{125264,125273,1},
{125278,125279,1},
{126065,126132,2},
{126209,126269,2},
{126464,126467,2},
{126469,126495,2},
{126497,126498,2},
{126500,126500,2},
{126503,126503,2},
{126505,126514,2},
{126516,126519,2},
{126521,126521,2},
{126523,126523,2},
{126530,126530,2},
{126535,126535,2},
{126537,126537,2},
{126539,126539,2},
{126541,126543,2},
{126545,126546,2},
{126548,126548,2},
{126551,126551,2},
{126553,126553,2},
{126555,126555,2},
{126557,126557,2},
{126559,126559,2},
{126561,126562,2},
{126564,126564,2},
{126567,126570,2},
{126572,126578,2},
{126580,126583,2},
{126585,126588,2},
{126590,126590,2},
{126592,126601,2},
{126603,126619,2},
{126625,126627,2},
{126629,126633,2},
{126635,126651,2},
{126704,126705,13},
{126976,127019,13},
{127024,127123,13},
{127136,127150,13},
{127153,127167,13},
{127169,127183,13},
{127185,127221,13},
{127232,127242,3},
{127243,127247,13},
{127248,127278,0},
{127279,127279,13},
{127280,127337,0},
{127338,127343,13},
{127344,127404,0},
{127405,127405,13},
{127462,127490,0},
{127504,127547,0},
{127552,127560,0},
{127568,127569,0},
{127584,127589,13},
{127744,128727,13},
{128736,128748,13},
{128752,128764,13},
{128768,128883,13},
{128896,128984,13},
{128992,129003,13},
{129024,129035,13},
{129040,129095,13},
{129104,129113,13},
{129120,129159,13},
{129168,129197,13},
{129200,129201,13},
{129280,129400,13},
{129402,129483,13},
{129485,129619,13},
{129632,129645,13},
{129648,129652,13},
{129656,129658,13},
{129664,129670,13},
{129680,129704,13},
{129712,129718,13},
{129728,129730,13},
{129744,129750,13},
{129792,129938,13},
{129940,129994,13},
{130032,130041,3},
{131072,173789,0},
{173824,177972,0},
{177984,178205,0},
{178208,183969,0},
{183984,191456,0},
{194560,195101,0},
{196608,201546,0},
{917505,917505,9},
{917536,917631,9},
{917760,917999,8},
{983040,1048573,0},
{1048576,1114109,0},
};
static const unsigned t_qc[][3] = {
{160,160,80},
{168,168,80},
{170,170,80},
{175,175,80},
{178,181,80},
{184,186,80},
{188,190,80},
{192,197,68},
{199,207,68},
{209,214,68},
{217,221,68},
{224,229,68},
{231,239,68},
{241,246,68},
{249,253,68},
{255,271,68},
{274,293,68},
{296,304,68},
{306,307,80},
{308,311,68},
{313,318,68},
{319,320,80},
{323,328,68},
{329,329,80},
{332,337,68},
{340,357,68},
{360,382,68},
{383,383,80},
{416,417,68},
{431,432,68},
{452,460,80},
{461,476,68},
{478,483,68},
{486,496,68},
{497,499,80},
{500,501,68},
{504,539,68},
{542,543,68},
{550,563,68},
{688,696,80},
{728,733,80},
{736,740,80},
{768,772,34},
{774,780,34},
{783,783,34},
{785,785,34},
{787,788,34},
{795,795,34},
{803,808,34},
{813,814,34},
{816,817,34},
{824,824,34},
{832,833,85},
{834,834,34},
{835,836,85},
{837,837,34},
{884,884,85},
{890,890,80},
{894,894,85},
{900,900,80},
{901,901,84},
{902,902,68},
{903,903,85},
{904,906,68},
{908,908,68},
{910,912,68},
{938,944,68},
{970,974,68},
{976,978,80},
{979,980,84},
{981,982,80},
{1008,1010,80},
{1012,1013,80},
{1017,1017,80},
{1024,1025,68},
{1027,1027,68},
{1031,1031,68},
{1036,1038,68},
{1049,1049,68},
{1081,1081,68},
{1104,1105,68},
{1107,1107,68},
{1111,1111,68},
{1116,1118,68},
{1142,1143,68},
{1217,1218,68},
{1232,1235,68},
{1238,1239,68},
{1242,1247,68},
{1250,1255,68},
{1258,1269,68},
{1272,1273,68},
{1415,1415,80},
{1570,1574,68},
{1619,1621,34},
{1653,1656,80},
{1728,1728,68},
{1730,1730,68},
{1747,1747,68},
{2345,2345,68},
{2353,2353,68},
{2356,2356,68},
{2364,2364,34},
{2392,2399,85},
{2494,2494,34},
{2507,2508,68},
{2519,2519,34},
{2524,2525,85},
{2527,2527,85},
{2611,2611,85},
{2614,2614,85},
{2649,2651,85},
{2654,2654,85},
{2878,2878,34},
{2888,2888,68},
{2891,2892,68},
{2902,2903,34},
{2908,2909,85},
{2964,2964,68},
{3006,3006,34},
{3018,3020,68},
{3031,3031,34},
{3144,3144,68},
{3158,3158,34},
{3264,3264,68},
{3266,3266,34},
{3271,3272,68},
{3274,3275,68},
{3285,3286,34},
{3390,3390,34},
{3402,3404,68},
{3415,3415,34},
{3530,3530,34},
{3535,3535,34},
{3546,3546,68},
{3548,3550,68},
{3551,3551,34},
{3635,3635,80},
{3763,3763,80},
{3804,3805,80},
{3852,3852,80},
{3907,3907,85},
{3917,3917,85},
{3922,3922,85},
{3927,3927,85},
{3932,3932,85},
{3945,3945,85},
{3955,3955,85},
{3957,3958,85},
{3959,3959,80},
{3960,3960,85},
{3961,3961,80},
{3969,3969,85},
{3987,3987,85},
{3997,3997,85},
{4002,4002,85},
{4007,4007,85},
{4012,4012,85},
{4025,4025,85},
{4134,4134,68},
{4142,4142,34},
{4348,4348,80},
{4449,4469,34},
{4520,4546,34},
{6918,6918,68},
{6920,6920,68},
{6922,6922,68},
{6924,6924,68},
{6926,6926,68},
{6930,6930,68},
{6965,6965,34},
{6971,6971,68},
{6973,6973,68},
{6976,6977,68},
{6979,6979,68},
{7468,7470,80},
{7472,7482,80},
{7484,7501,80},
{7503,7530,80},
{7544,7544,80},
{7579,7615,80},
{7680,7833,68},
{7834,7834,80},
{7835,7835,84},
{7840,7929,68},
{7936,7957,68},
{7960,7965,68},
{7968,8005,68},
{8008,8013,68},
{8016,8023,68},
{8025,8025,68},
{8027,8027,68},
{8029,8029,68},
{8031,8048,68},
{8049,8049,85},
{8050,8050,68},
{8051,8051,85},
{8052,8052,68},
{8053,8053,85},
{8054,8054,68},
{8055,8055,85},
{8056,8056,68},
{8057,8057,85},
{8058,8058,68},
{8059,8059,85},
{8060,8060,68},
{8061,8061,85},
{8064,8116,68},
{8118,8122,68},
{8123,8123,85},
{8124,8124,68},
{8125,8125,80},
{8126,8126,85},
{8127,8128,80},
{8129,8129,84},
{8130,8132,68},
{8134,8136,68},
{8137,8137,85},
{8138,8138,68},
{8139,8139,85},
{8140,8140,68},
{8141,8143,84},
{8144,8146,68},
{8147,8147,85},
{8150,8154,68},
{8155,8155,85},
{8157,8159,84},
{8160,8162,68},
{8163,8163,85},
{8164,8170,68},
{8171,8171,85},
{8172,8172,68},
{8173,8173,84},
{8174,8175,85},
{8178,8180,68},
{8182,8184,68},
{8185,8185,85},
{8186,8186,68},
{8187,8187,85},
{8188,8188,68},
{8189,8189,85},
{8190,8190,80},
{8192,8193,85},
{8194,8202,80},
{8209,8209,80},
{8215,8215,80},
{8228,8230,80},
{8239,8239,80},
{8243,8244,80},
{8246,8247,80},
{8252,8252,80},
{8254,8254,80},
{8263,8265,80},
{8279,8279,80},
{8287,8287,80},
{8304,8305,80},
{8308,8334,80},
{8336,8348,80},
{8360,8360,80},
{8448,8451,80},
{8453,8455,80},
{8457,8467,80},
{8469,8470,80},
{8473,8477,80},
{8480,8482,80},
{8484,8484,80},
{8486,8486,85},
{8488,8488,80},
{8490,8491,85},
{8492,8493,80},
{8495,8497,80},
{8499,8505,80},
{8507,8512,80},
{8517,8521,80},
{8528,8575,80},
{8585,8585,80},
{8602,8603,68},
{8622,8622,68},
{8653,8655,68},
{8708,8708,68},
{8713,8713,68},
{8716,8716,68},
{8740,8740,68},
{8742,8742,68},
{8748,8749,80},
{8751,8752,80},
{8769,8769,68},
{8772,8772,68},
{8775,8775,68},
{8777,8777,68},
{8800,8800,68},
{8802,8802,68},
{8813,8817,68},
{8820,8821,68},
{8824,8825,68},
{8832,8833,68},
{8836,8837,68},
{8840,8841,68},
{8876,8879,68},
{8928,8931,68},
{8938,8941,68},
{9001,9002,85},
{9312,9450,80},
{10764,10764,80},
{10868,10870,80},
{10972,10972,85},
{11388,11389,80},
{11631,11631,80},
{11935,11935,80},
{12019,12019,80},
{12032,12245,80},
{12288,12288,80},
{12342,12342,80},
{12344,12346,80},
{12364,12364,68},
{12366,12366,68},
{12368,12368,68},
{12370,12370,68},
{12372,12372,68},
{12374,12374,68},
{12376,12376,68},
{12378,12378,68},
{12380,12380,68},
{12382,12382,68},
{12384,12384,68},
{12386,12386,68},
{12389,12389,68},
{12391,12391,68},
{12393,12393,68},
{12400,12401,68},
{12403,12404,68},
{12406,12407,68},
{12409,12410,68},
{12412,12413,68},
{12436,12436,68},
{12441,12442,34},
{12443,12444,80},
{12446,12446,68},
{12447,12447,80},
{12460,12460,68},
{12462,12462,68},
{12464,12464,68},
{12466,12466,68},
{12468,12468,68},
{12470,12470,68},
{12472,12472,68},
{12474,12474,68},
{12476,12476,68},
{12478,12478,68},
{12480,12480,68},
{12482,12482,68},
{12485,12485,68},
{12487,12487,68},
{12489,12489,68},
{12496,12497,68},
{12499,12500,68},
{12502,12503,68},
{12505,12506,68},
{12508,12509,68},
{12532,12532,68},
{12535,12538,68},
{12542,12542,68},
{12543,12543,80},
{12593,12686,80},
{12690,12703,80},
{12800,12830,80},
{12832,12871,80},
{12880,12926,80},
{12928,13311,80},
{42652,42653,80},
{42864,42864,80},
{43000,43001,80},
{43868,43871,80},
{43881,43881,80},
{44032,55203,68},
{63744,64013,85},
{64016,64016,85},
{64018,64018,85},
{64021,64030,85},
{64032,64032,85},
{64034,64034,85},
{64037,64038,85},
{64042,64109,85},
{64112,64217,85},
{64256,64262,80},
{64275,64279,80},
{64285,64285,85},
{64287,64287,85},
{64288,64297,80},
{64298,64310,85},
{64312,64316,85},
{64318,64318,85},
{64320,64321,85},
{64323,64324,85},
{64326,64334,85},
{64335,64433,80},
{64467,64829,80},
{64848,64911,80},
{64914,64967,80},
{65008,65020,80},
{65040,65049,80},
{65072,65092,80},
{65095,65106,80},
{65108,65126,80},
{65128,65131,80},
{65136,65138,80},
{65140,65140,80},
{65142,65276,80},
{65281,65470,80},
{65474,65479,80},
{65482,65487,80},
{65490,65495,80},
{65498,65500,80},
{65504,65510,80},
{65512,65518,80},
{69786,69786,68},
{69788,69788,68},
{69803,69803,68},
{69818,69818,34},
{69927,69927,34},
{69934,69935,68},
{70462,70462,34},
{70475,70476,68},
{70487,70487,34},
{70832,70832,34},
{70842,70842,34},
{70843,70844,68},
{70845,70845,34},
{70846,70846,68},
{71087,71087,34},
{71098,71099,68},
{71984,71984,34},
{71992,71992,68},
{119134,119140,85},
{119227,119232,85},
{119808,119892,80},
{119894,119964,80},
{119966,119967,80},
{119970,119970,80},
{119973,119974,80},
{119977,119980,80},
{119982,119993,80},
{119995,119995,80},
{119997,120003,80},
{120005,120069,80},
{120071,120074,80},
{120077,120084,80},
{120086,120092,80},
{120094,120121,80},
{120123,120126,80},
{120128,120132,80},
{120134,120134,80},
{120138,120144,80},
{120146,120485,80},
{120488,120779,80},
{120782,120831,80},
{126464,126467,80},
{126469,126495,80},
{126497,126498,80},
{126500,126500,80},
{126503,126503,80},
{126505,126514,80},
{126516,126519,80},
{126521,126521,80},
{126523,126523,80},
{126530,126530,80},
{126535,126535,80},
{126537,126537,80},
{126539,126539,80},
{126541,126543,80},
{126545,126546,80},
{126548,126548,80},
{126551,126551,80},
{126553,126553,80},
{126555,126555,80},
{126557,126557,80},
{126559,126559,80},
{126561,126562,80},
{126564,126564,80},
{126567,126570,80},
{126572,126578,80},
{126580,126583,80},
{126585,126588,80},
{126590,126590,80},
{126592,126601,80},
{126603,126619,80},
{126625,126627,80},
{126629,126633,80},
{126635,126651,80},
{127232,127242,80},
{127248,127278,80},
{127280,127311,80},
{127338,127340,80},
{127376,127376,80},
{127488,127490,80},
{127504,127547,80},
{127552,127560,80},
{127568,127569,80},
{130032,130041,80},
{194560,195101,85},
};
static const unsigned t_lower[][2] = {
{65,97},
{66,98},
{67,99},
{68,100},
{69,101},
{70,102},
{71,103},
{72,104},
{73,105},
{74,106},
{75,107},
{76,108},
{77,109},
{78,110},
{79,111},
{80,112},
{81,113},
{82,114},
{83,115},
{84,116},
{85,117},
{86,118},
{87,119},
{88,120},
{89,121},
{90,122},
{192,224},
{193,225},
{194,226},
{195,227},
{196,228},
{197,229},
{198,230},
{199,231},
{200,232},
{201,233},
{202,234},
{203,235},
{204,236},
{205,237},
{206,238},
{207,239},
{208,240},
{209,241},
{210,242},
{211,243},
{212,244},
{213,245},
{214,246},
{216,248},
{217,249},
{218,250},
{219,251},
{220,252},
{221,253},
{222,254},
{256,257},
{258,259},
{260,261},
{262,263},
{264,265},
{266,267},
{268,269},
{270,271},
{272,273},
{274,275},
{276,277},
{278,279},
{280,281},
{282,283},
{284,285},
{286,287},
{288,289},
{290,291},
{292,293},
{294,295},
{296,297},
{298,299},
{300,301},
{302,303},
{304,105},
{306,307},
{308,309},
{310,311},
{313,314},
{315,316},
{317,318},
{319,320},
{321,322},
{323,324},
{325,326},
{327,328},
{330,331},
{332,333},
{334,335},
{336,337},
{338,339},
{340,341},
{342,343},
{344,345},
{346,347},
{348,349},
{350,351},
{352,353},
{354,355},
{356,357},
{358,359},
{360,361},
{362,363},
{364,365},
{366,367},
{368,369},
{370,371},
{372,373},
{374,375},
{376,255},
{377,378},
{379,380},
{381,382},
{385,595},
{386,387},
{388,389},
{390,596},
{391,392},
{393,598},
{394,599},
{395,396},
{398,477},
{399,601},
{400,603},
{401,402},
{403,608},
{404,611},
{406,617},
{407,616},
{408,409},
{412,623},
{413,626},
{415,629},
{416,417},
{418,419},
{420,421},
{422,640},
{423,424},
{425,643},
{428,429},
{430,648},
{431,432},
{433,650},
{434,651},
{435,436},
{437,438},
{439,658},
{440,441},
{444,445},
{452,454},
{455,457},
{458,460},
{461,462},
{463,464},
{465,466},
{467,468},
{469,470},
{471,472},
{473,474},
{475,476},
{478,479},
{480,481},
{482,483},
{484,485},
{486,487},
{488,489},
{490,491},
{492,493},
{494,495},
{497,499},
{500,501},
{502,405},
{503,447},
{504,505},
{506,507},
{508,509},
{510,511},
{512,513},
{514,515},
{516,517},
{518,519},
{520,521},
{522,523},
{524,525},
{526,527},
{528,529},
{530,531},
{532,533},
{534,535},
{536,537},
{538,539},
{540,541},
{542,543},
{544,414},
{546,547},
{548,549},
{550,551},
{552,553},
{554,555},
{556,557},
{558,559},
{560,561},
{562,563},
{570,11365},
{571,572},
{573,410},
{574,11366},
{577,578},
{579,384},
{580,649},
{581,652},
{582,583},
{584,585},
{586,587},
{588,589},
{590,591},
{880,881},
{882,883},
{886,887},
{895,1011},
{902,940},
{904,941},
{905,942},
{906,943},
{908,972},
{910,973},
{911,974},
{913,945},
{914,946},
{915,947},
{916,948},
{917,949},
{918,950},
{919,951},
{920,952},
{921,953},
{922,954},
{923,955},
{924,956},
{925,957},
{926,958},
{927,959},
{928,960},
{929,961},
{931,963},
{932,964},
{933,965},
{934,966},
{935,967},
{936,968},
{937,969},
{938,970},
{939,971},
{975,983},
{984,985},
{986,987},
{988,989},
{990,991},
{992,993},
{994,995},
{996,997},
{998,999},
{1000,1001},
{1002,1003},
{1004,1005},
{1006,1007},
{1012,952},
{1015,1016},
{1017,1010},
{1018,1019},
{1021,891},
{1022,892},
{1023,893},
{1024,1104},
{1025,1105},
{1026,1106},
{1027,1107},
{1028,1108},
{1029,1109},
{1030,1110},
{1031,1111},
{1032,1112},
{1033,1113},
{1034,1114},
{1035,1115},
{1036,1116},
{1037,1117},
{1038,1118},
{1039,1119},
{1040,1072},
{1041,1073},
{1042,1074},
{1043,1075},
{1044,1076},
{1045,1077},
{1046,1078},
{1047,1079},
{1048,1080},
{1049,1081},
{1050,1082},
{1051,1083},
{1052,1084},
{1053,1085},
{1054,1086},
{1055,1087},
{1056,1088},
{1057,1089},
{1058,1090},
{1059,1091},
{1060,1092},
{1061,1093},
{1062,1094},
{1063,1095},
{1064,1096},
{1065,1097},
{1066,1098},
{1067,1099},
{1068,1100},
{1069,1101},
{1070,1102},
{1071,1103},
{1120,1121},
{1122,1123},
{1124,1125},
{1126,1127},
{1128,1129},
{1130,1131},
{1132,1133},
{1134,1135},
{1136,1137},
{1138,1139},
{1140,1141},
{1142,1143},
{1144,1145},
{1146,1147},
{1148,1149},
{1150,1151},
{1152,1153},
{1162,1163},
{1164,1165},
{1166,1167},
{1168,1169},
{1170,1171},
{1172,1173},
{1174,1175},
{1176,1177},
{1178,1179},
{1180,1181},
{1182,1183},
{1184,1185},
{1186,1187},
{1188,1189},
{1190,1191},
{1192,1193},
{1194,1195},
{1196,1197},
{1198,1199},
{1200,1201},
{1202,1203},
{1204,1205},
{1206,1207},
{1208,1209},
{1210,1211},
{1212,1213},
{1214,1215},
{1216,1231},
{1217,1218},
{1219,1220},
{1221,1222},
{1223,1224},
{1225,1226},
{1227,1228},
{1229,1230},
{1232,1233},
{1234,1235},
{1236,1237},
{1238,1239},
{1240,1241},
{1242,1243},
{1244,1245},
{1246,1247},
{1248,1249},
{1250,1251},
{1252,1253},
{1254,1255},
{1256,1257},
{1258,1259},
{1260,1261},
{1262,1263},
{1264,1265},
{1266,1267},
{1268,1269},
{1270,1271},
{1272,1273},
{1274,1275},
{1276,1277},
{1278,1279},
{1280,1281},
{1282,1283},
{1284,1285},
{1286,1287},
{1288,1289},
{1290,1291},
{1292,1293},
{1294,1295},
{1296,1297},
{1298,1299},
{1300,1301},
{1302,1303},
{1304,1305},
{1306,1307},
{1308,1309},
{1310,1311},
{1312,1313},
{1314,1315},
{1316,1317},
{1318,1319},
{1320,1321},
{1322,1323},
{1324,1325},
{1326,1327},
{1329,1377},
{1330,1378},
{1331,1379},
{1332,1380},
{1333,1381},
{1334,1382},
{1335,1383},
{1336,1384},
{1337,1385},
{1338,1386},
{1339,1387},
{1340,1388},
{1341,1389},
{1342,1390},
{1343,1391},
{1344,1392},
{1345,1393},
{1346,1394},
{1347,1395},
{1348,1396},
{1349,1397},
{1350,1398},
{1351,1399},
{1352,1400},
{1353,1401},
{1354,1402},
{1355,1403},
{1356,1404},
{1357,1405},
{1358,1406},
{1359,1407},
{1360,1408},
{1361,1409},
{1362,1410},
{1363,1411},
{1364,1412},
{1365,1413},
{1366,1414},
{4256,11520},
{4257,11521},
{4258,11522},
{4259,11523},
{4260,11524},
{4261,11525},
{4262,11526},
{4263,11527},
{4264,11528},
{4265,11529},
{4266,11530},
{4267,11531},
{4268,11532},
{4269,11533},
{4270,11534},
{4271,11535},
{4272,11536},
{4273,11537},
{4274,11538},
{4275,11539},
{4276,11540},
{4277,11541},
{4278,11542},
{4279,11543},
{4280,11544},
{4281,11545},
{4282,11546},
{4283,11547},
{4284,11548},
{4285,11549},
{4286,11550},
{4287,11551},
{4288,11552},
{4289,11553},
{4290,11554},
{4291,11555},
{4292,11556},
{4293,11557},
{4295,11559},
{4301,11565},
{5024,43888},
{5025,43889},
{5026,43890},
{5027,43891},
{5028,43892},
{5029,43893},
{5030,43894},
{5031,43895},
{5032,43896},
{5033,43897},
{5034,43898},
{5035,43899},
{5036,43900},
{5037,43901},
{5038,43902},
{5039,43903},
{5040,43904},
{5041,43905},
{5042,43906},
{5043,43907},
{5044,43908},
{5045,43909},
{5046,43910},
{5047,43911},
{5048,43912},
{5049,43913},
{5050,43914},
{5051,43915},
{5052,43916},
{5053,43917},
{5054,43918},
{5055,43919},
{5056,43920},
{5057,43921},
{5058,43922},
{5059,43923},
{5060,43924},
{5061,43925},
{5062,43926},
{5063,43927},
{5064,43928},
{5065,43929},
{5066,43930},
{5067,43931},
{5068,43932},
{5069,43933},
{5070,43934},
{5071,43935},
{5072,43936},
{5073,43937},
{5074,43938},
{5075,43939},
{5076,43940},
{5077,43941},
{5078,43942},
{5079,43943},
{5080,43944},
{5081,43945},
{5082,43946},
{5083,43947},
{5084,43948},
{5085,43949},
{5086,43950},
{5087,43951},
{5088,43952},
{5089,43953},
{5090,43954},
{5091,43955},
{5092,43956},
{5093,43957},
{5094,43958},
{5095,43959},
{5096,43960},
{5097,43961},
{5098,43962},
{5099,43963},
{5100,43964},
{5101,43965},
{5102,43966},
{5103,43967},
{5104,5112},
{5105,5113},
{5106,5114},
{5107,5115},
{5108,5116},
{5109,5117},
{7312,4304},
{7313,4305},
{7314,4306},
{7315,4307},
{7316,4308},
{7317,4309},
{7318,4310},
{7319,4311},
{7320,4312},
{7321,4313},
{7322,4314},
{7323,4315},
{7324,4316},
{7325,4317},
{7326,4318},
{7327,4319},
{7328,4320},
{7329,4321},
{7330,4322},
{7331,4323},
{7332,4324},
{7333,4325},
{7334,4326},
{7335,4327},
{7336,4328},
{7337,4329},
{7338,4330},
{7339,4331},
{7340,4332},
{7341,4333},
{7342,4334},
{7343,4335},
{7344,4336},
{7345,4337},
{7346,4338},
{7347,4339},
{7348,4340},
{7349,4341},
{7350,4342},
{7351,4343},
{7352,4344},
{7353,4345},
{7354,4346},
{7357,4349},
{7358,4350},
{7359,4351},
{7680,7681},
{7682,7683},
{7684,7685},
{7686,7687},
{7688,7689},
{7690,7691},
{7692,7693},
{7694,7695},
{7696,7697},
{7698,7699},
{7700,7701},
{7702,7703},
{7704,7705},
{7706,7707},
{7708,7709},
{7710,7711},
{7712,7713},
{7714,7715},
{7716,7717},
{7718,7719},
{7720,7721},
{7722,7723},
{7724,7725},
{7726,7727},
{7728,7729},
{7730,7731},
{7732,7733},
{7734,7735},
{7736,7737},
{7738,7739},
{7740,7741},
{7742,7743},
{7744,7745},
{7746,7747},
{7748,7749},
{7750,7751},
{7752,7753},
{7754,7755},
{7756,7757},
{7758,7759},
{7760,7761},
{7762,7763},
{7764,7765},
{7766,7767},
{7768,7769},
{7770,7771},
{7772,7773},
{7774,7775},
{7776,7777},
{7778,7779},
{7780,7781},
{7782,7783},
{7784,7785},
{7786,7787},
{7788,7789},
{7790,7791},
{7792,7793},
{7794,7795},
{7796,7797},
{7798,7799},
{7800,7801},
{7802,7803},
{7804,7805},
{7806,7807},
{7808,7809},
{7810,7811},
{7812,7813},
{7814,7815},
{7816,7817},
{7818,7819},
{7820,7821},
{7822,7823},
{7824,7825},
{7826,7827},
{7828,7829},
{7838,223},
{7840,7841},
{7842,7843},
{7844,7845},
{7846,7847},
{7848,7849},
{7850,7851},
{7852,7853},
{7854,7855},
{7856,7857},
{7858,7859},
{7860,7861},
{7862,7863},
{7864,7865},
{7866,7867},
{7868,7869},
{7870,7871},
{7872,7873},
{7874,7875},
{7876,7877},
{7878,7879},
{7880,7881},
{7882,7883},
{7884,7885},
{7886,7887},
{7888,7889},
{7890,7891},
{7892,7893},
{7894,7895},
{7896,7897},
{7898,7899},
{7900,7901},
{7902,7903},
{7904,7905},
{7906,7907},
{7908,7909},
{7910,7911},
{7912,7913},
{7914,7915},
{7916,7917},
{7918,7919},
{7920,7921},
{7922,7923},
{7924,7925},
{7926,7927},
{7928,7929},
{7930,7931},
{7932,7933},
{7934,7935},
{7944,7936},
{7945,7937},
{7946,7938},
{7947,7939},
{7948,7940},
{7949,7941},
{7950,7942},
{7951,7943},
{7960,7952},
{7961,7953},
{7962,7954},
{7963,7955},
{7964,7956},
{7965,7957},
{7976,7968},
{7977,7969},
{7978,7970},
{7979,7971},
{7980,7972},
{7981,7973},
{7982,7974},
{7983,7975},
{7992,7984},
{7993,7985},
{7994,7986},
{7995,7987},
{7996,7988},
{7997,7989},
{7998,7990},
{7999,7991},
{8008,8000},
{8009,8001},
{8010,8002},
{8011,8003},
{8012,8004},
{8013,8005},
{8025,8017},
{8027,8019},
{8029,8021},
{8031,8023},
{8040,8032},
{8041,8033},
{8042,8034},
{8043,8035},
{8044,8036},
{8045,8037},
{8046,8038},
{8047,8039},
{8120,8112},
{8121,8113},
{8122,8048},
{8123,8049},
{8136,8050},
{8137,8051},
{8138,8052},
{8139,8053},
{8152,8144},
{8153,8145},
{8154,8054},
{8155,8055},
{8168,8160},
{8169,8161},
{8170,8058},
{8171,8059},
{8172,8165},
{8184,8056},
{8185,8057},
{8186,8060},
{8187,8061},
{8486,969},
{8490,107},
{8491,229},
{8498,8526},
{8579,8580},
{11264,11312},
{11265,11313},
{11266,11314},
{11267,11315},
{11268,11316},
{11269,11317},
{11270,11318},
{11271,11319},
{11272,11320},
{11273,11321},
{11274,11322},
{11275,11323},
{11276,11324},
{11277,11325},
{11278,11326},
{11279,11327},
{11280,11328},
{11281,11329},
{11282,11330},
{11283,11331},
{11284,11332},
{11285,11333},
{11286,11334},
{11287,11335},
{11288,11336},
{11289,11337},
{11290,11338},
{11291,11339},
{11292,11340},
{11293,11341},
{11294,11342},
{11295,11343},
{11296,11344},
{11297,11345},
{11298,11346},
{11299,11347},
{11300,11348},
{11301,11349},
{11302,11350},
{11303,11351},
{11304,11352},
{11305,11353},
{11306,11354},
{11307,11355},
{11308,11356},
{11309,11357},
{11310,11358},
{11360,11361},
{11362,619},
{11363,7549},
{11364,637},
{11367,11368},
{11369,11370},
{11371,11372},
{11373,593},
{11374,625},
{11375,592},
{11376,594},
{11378,11379},
{11381,11382},
{11390,575},
{11391,576},
{11392,11393},
{11394,11395},
{11396,11397},
{11398,11399},
{11400,11401},
{11402,11403},
{11404,11405},
{11406,11407},
{11408,11409},
{11410,11411},
{11412,11413},
{11414,11415},
{11416,11417},
{11418,11419},
{11420,11421},
{11422,11423},
{11424,11425},
{11426,11427},
{11428,11429},
{11430,11431},
{11432,11433},
{11434,11435},
{11436,11437},
{11438,11439},
{11440,11441},
{11442,11443},
{11444,11445},
{11446,11447},
{11448,11449},
{11450,11451},
{11452,11453},
{11454,11455},
{11456,11457},
{11458,11459},
{11460,11461},
{11462,11463},
{11464,11465},
{11466,11467},
{11468,11469},
{11470,11471},
{11472,11473},
{11474,11475},
{11476,11477},
{11478,11479},
{11480,11481},
{11482,11483},
{11484,11485},
{11486,11487},
{11488,11489},
{11490,11491},
{11499,11500},
{11501,11502},
{11506,11507},
{42560,42561},
{42562,42563},
{42564,42565},
{42566,42567},
{42568,42569},
{42570,42571},
{42572,42573},
{42574,42575},
{42576,42577},
{42578,42579},
{42580,42581},
{42582,42583},
{42584,42585},
{42586,42587},
{42588,42589},
{42590,42591},
{42592,42593},
{42594,42595},
{42596,42597},
{42598,42599},
{42600,42601},
{42602,42603},
{42604,42605},
{42624,42625},
{42626,42627},
{42628,42629},
{42630,42631},
{42632,42633},
{42634,42635},
{42636,42637},
{42638,42639},
{42640,42641},
{42642,42643},
{42644,42645},
{42646,42647},
{42648,42649},
{42650,42651},
{42786,42787},
{42788,42789},
{42790,42791},
{42792,42793},
{42794,42795},
{42796,42797},
{42798,42799},
{42802,42803},
{42804,42805},
{42806,42807},
{42808,42809},
{42810,42811},
{42812,42813},
{42814,42815},
{42816,42817},
{42818,42819},
{42820,42821},
{42822,42823},
{42824,42825},
{42826,42827},
{42828,42829},
{42830,42831},
{42832,42833},
{42834,42835},
{42836,42837},
{42838,42839},
{42840,42841},
{42842,42843},
{42844,42845},
{42846,42847},
{42848,42849},
{42850,42851},
{42852,42853},
{42854,42855},
{42856,42857},
{42858,42859},
{42860,42861},
{42862,42863},
{42873,42874},
{42875,42876},
{42877,7545},
{42878,42879},
{42880,42881},
{42882,42883},
{42884,42885},
{42886,42887},
{42891,42892},
{42893,613},
{42896,42897},
{42898,42899},
{42902,42903},
{42904,42905},
{42906,42907},
{42908,42909},
{42910,42911},
{42912,42913},
{42914,42915},
{42916,42917},
{42918,42919},
{42920,42921},
{42922,614},
{42923,604},
{42924,609},
{42925,620},
{42926,618},
{42928,670},
{42929,647},
{42930,669},
{42931,43859},
{42932,42933},
{42934,42935},
{42936,42937},
{42938,42939},
{42940,42941},
{42942,42943},
{42946,42947},
{42948,42900},
{42949,642},
{42950,7566},
{42951,42952},
{42953,42954},
{42997,42998},
{65313,65345},
{65314,65346},
{65315,65347},
{65316,65348},
{65317,65349},
{65318,65350},
{65319,65351},
{65320,65352},
{65321,65353},
{65322,65354},
{65323,65355},
{65324,65356},
{65325,65357},
{65326,65358},
{65327,65359},
{65328,65360},
{65329,65361},
{65330,65362},
{65331,65363},
{65332,65364},
{65333,65365},
{65334,65366},
{65335,65367},
{65336,65368},
{65337,65369},
{65338,65370},
{66560,66600},
{66561,66601},
{66562,66602},
{66563,66603},
{66564,66604},
{66565,66605},
{66566,66606},
{66567,66607},
{66568,66608},
{66569,66609},
{66570,66610},
{66571,66611},
{66572,66612},
{66573,66613},
{66574,66614},
{66575,66615},
{66576,66616},
{66577,66617},
{66578,66618},
{66579,66619},
{66580,66620},
{66581,66621},
{66582,66622},
{66583,66623},
{66584,66624},
{66585,66625},
{66586,66626},
{66587,66627},
{66588,66628},
{66589,66629},
{66590,66630},
{66591,66631},
{66592,66632},
{66593,66633},
{66594,66634},
{66595,66635},
{66596,66636},
{66597,66637},
{66598,66638},
{66599,66639},
{66736,66776},
{66737,66777},
{66738,66778},
{66739,66779},
{66740,66780},
{66741,66781},
{66742,66782},
{66743,66783},
{66744,66784},
{66745,66785},
{66746,66786},
{66747,66787},
{66748,66788},
{66749,66789},
{66750,66790},
{66751,66791},
{66752,66792},
{66753,66793},
{66754,66794},
{66755,66795},
{66756,66796},
{66757,66797},
{66758,66798},
{66759,66799},
{66760,66800},
{66761,66801},
{66762,66802},
{66763,66803},
{66764,66804},
{66765,66805},
{66766,66806},
{66767,66807},
{66768,66808},
{66769,66809},
{66770,66810},
{66771,66811},
{68736,68800},
{68737,68801},
{68738,68802},
{68739,68803},
{68740,68804},
{68741,68805},
{68742,68806},
{68743,68807},
{68744,68808},
{68745,68809},
{68746,68810},
{68747,68811},
{68748,68812},
{68749,68813},
{68750,68814},
{68751,68815},
{68752,68816},
{68753,68817},
{68754,68818},
{68755,68819},
{68756,68820},
{68757,68821},
{68758,68822},
{68759,68823},
{68760,68824},
{68761,68825},
{68762,68826},
{68763,68827},
{68764,68828},
{68765,68829},
{68766,68830},
{68767,68831},
{68768,68832},
{68769,68833},
{68770,68834},
{68771,68835},
{68772,68836},
{68773,68837},
{68774,68838},
{68775,68839},
{68776,68840},
{68777,68841},
{68778,68842},
{68779,68843},
{68780,68844},
{68781,68845},
{68782,68846},
{68783,68847},
{68784,68848},
{68785,68849},
{68786,68850},
{71840,71872},
{71841,71873},
{71842,71874},
{71843,71875},
{71844,71876},
{71845,71877},
{71846,71878},
{71847,71879},
{71848,71880},
{71849,71881},
{71850,71882},
{71851,71883},
{71852,71884},
{71853,71885},
{71854,71886},
{71855,71887},
{71856,71888},
{71857,71889},
{71858,71890},
{71859,71891},
{71860,71892},
{71861,71893},
{71862,71894},
{71863,71895},
{71864,71896},
{71865,71897},
{71866,71898},
{71867,71899},
{71868,71900},
{71869,71901},
{71870,71902},
{71871,71903},
{93760,93792},
{93761,93793},
{93762,93794},
{93763,93795},
{93764,93796},
{93765,93797},
{93766,93798},
{93767,93799},
{93768,93800},
{93769,93801},
{93770,93802},
{93771,93803},
{93772,93804},
{93773,93805},
{93774,93806},
{93775,93807},
{93776,93808},
{93777,93809},
{93778,93810},
{93779,93811},
{93780,93812},
{93781,93813},
{93782,93814},
{93783,93815},
{93784,93816},
{93785,93817},
{93786,93818},
{93787,93819},
{93788,93820},
{93789,93821},
{93790,93822},
{93791,93823},
{125184,125218},
{125185,125219},
{125186,125220},
{125187,125221},
{125188,125222},
{125189,125223},
{125190,125224},
{125191,125225},
{125192,125226},
{125193,125227},
{125194,125228},
{125195,125229},
{125196,125230},
{125197,125231},
{125198,125232},
{125199,125233},
{125200,125234},
{125201,125235},
{125202,125236},
{125203,125237},
{125204,125238},
{125205,125239},
{125206,125240},
{125207,125241},
{125208,125242},
{125209,125243},
{125210,125244},
{125211,125245},
{125212,125246},
{125213,125247},
{125214,125248},
{125215,125249},
{125216,125250},
{125217,125251},
};
static const unsigned t_upper[][2] = {
{97,65},
{98,66},
{99,67},
{100,68},
{101,69},
{102,70},
{103,71},
{104,72},
{105,73},
{106,74},
{107,75},
{108,76},
{109,77},
{110,78},
{111,79},
{112,80},
{113,81},
{114,82},
{115,83},
{116,84},
{117,85},
{118,86},
{119,87},
{120,88},
{121,89},
{122,90},
{181,924},
{224,192},
{225,193},
{226,194},
{227,195},
{228,196},
{229,197},
{230,198},
{231,199},
{232,200},
{233,201},
{234,202},
{235,203},
{236,204},
{237,205},
{238,206},
{239,207},
{240,208},
{241,209},
{242,210},
{243,211},
{244,212},
{245,213},
{246,214},
{248,216},
{249,217},
{250,218},
{251,219},
{252,220},
{253,221},
{254,222},
{255,376},
{257,256},
{259,258},
{261,260},
{263,262},
{265,264},
{267,266},
{269,268},
{271,270},
{273,272},
{275,274},
{277,276},
{279,278},
{281,280},
{283,282},
{285,284},
{287,286},
{289,288},
{291,290},
{293,292},
{295,294},
{297,296},
{299,298},
{301,300},
{303,302},
{305,73},
{307,306},
{309,308},
{311,310},
{314,313},
{316,315},
{318,317},
{320,319},
{322,321},
{324,323},
{326,325},
{328,327},
{331,330},
{333,332},
{335,334},
{337,336},
{339,338},
{341,340},
{343,342},
{345,344},
{347,346},
{349,348},
{351,350},
{353,352},
{355,354},
{357,356},
{359,358},
{361,360},
{363,362},
{365,364},
{367,366},
{369,368},
{371,370},
{373,372},
{375,374},
{378,377},
{380,379},
{382,381},
{383,83},
{384,579},
{387,386},
{389,388},
{392,391},
{396,395},
{402,401},
{405,502},
{409,408},
{410,573},
{414,544},
{417,416},
{419,418},
{421,420},
{424,423},
{429,428},
{432,431},
{436,435},
{438,437},
{441,440},
{445,444},
{447,503},
{454,452},
{457,455},
{460,458},
{462,461},
{464,463},
{466,465},
{468,467},
{470,469},
{472,471},
{474,473},
{476,475},
{477,398},
{479,478},
{481,480},
{483,482},
{485,484},
{487,486},
{489,488},
{491,490},
{493,492},
{495,494},
{499,497},
{501,500},
{505,504},
{507,506},
{509,508},
{511,510},
{513,512},
{515,514},
{517,516},
{519,518},
{521,520},
{523,522},
{525,524},
{527,526},
{529,528},
{531,530},
{533,532},
{535,534},
{537,536},
{539,538},
{541,540},
{543,542},
{547,546},
{549,548},
{551,550},
{553,552},
{555,554},
{557,556},
{559,558},
{561,560},
{563,562},
{572,571},
{575,11390},
{576,11391},
{578,577},
{583,582},
{585,584},
{587,586},
{589,588},
{591,590},
{592,11375},
{593,11373},
{594,11376},
{595,385},
{596,390},
{598,393},
{599,394},
{601,399},
{603,400},
{604,42923},
{608,403},
{609,42924},
{611,404},
{613,42893},
{614,42922},
{616,407},
{617,406},
{618,42926},
{619,11362},
{620,42925},
{623,412},
{625,11374},
{626,413},
{629,415},
{637,11364},
{640,422},
{642,42949},
{643,425},
{647,42929},
{648,430},
{649,580},
{650,433},
{651,434},
{652,581},
{658,439},
{669,42930},
{670,42928},
{881,880},
{883,882},
{887,886},
{891,1021},
{892,1022},
{893,1023},
{940,902},
{941,904},
{942,905},
{943,906},
{945,913},
{946,914},
{947,915},
{948,916},
{949,917},
{950,918},
{951,919},
{952,920},
{953,921},
{954,922},
{955,923},
{956,924},
{957,925},
{958,926},
{959,927},
{960,928},
{961,929},
{962,931},
{963,931},
{964,932},
{965,933},
{966,934},
{967,935},
{968,936},
{969,937},
{970,938},
{971,939},
{972,908},
{973,910},
{974,911},
{976,914},
{977,920},
{981,934},
{982,928},
{983,975},
{985,984},
{987,986},
{989,988},
{991,990},
{993,992},
{995,994},
{997,996},
{999,998},
{1001,1000},
{1003,1002},
{1005,1004},
{1007,1006},
{1008,922},
{1009,929},
{1010,1017},
{1011,895},
{1013,917},
{1016,1015},
{1019,1018},
{1072,1040},
{1073,1041},
{1074,1042},
{1075,1043},
{1076,1044},
{1077,1045},
{1078,1046},
{1079,1047},
{1080,1048},
{1081,1049},
{1082,1050},
{1083,1051},
{1084,1052},
{1085,1053},
{1086,1054},
{1087,1055},
{1088,1056},
{1089,1057},
{1090,1058},
{1091,1059},
{1092,1060},
{1093,1061},
{1094,1062},
{1095,1063},
{1096,1064},
{1097,1065},
{1098,1066},
{1099,1067},
{1100,1068},
{1101,1069},
{1102,1070},
{1103,1071},
{1104,1024},
{1105,1025},
{1106,1026},
{1107,1027},
{1108,1028},
{1109,1029},
{1110,1030},
{1111,1031},
{1112,1032},
{1113,1033},
{1114,1034},
{1115,1035},
{1116,1036},
{1117,1037},
{1118,1038},
{1119,1039},
{1121,1120},
{1123,1122},
{1125,1124},
{1127,1126},
{1129,1128},
{1131,1130},
{1133,1132},
{1135,1134},
{1137,1136},
{1139,1138},
{1141,1140},
{1143,1142},
{1145,1144},
{1147,1146},
{1149,1148},
{1151,1150},
{1153,1152},
{1163,1162},
{1165,1164},
{1167,1166},
{1169,1168},
{1171,1170},
{1173,1172},
{1175,1174},
{1177,1176},
{1179,1178},
{1181,1180},
{1183,1182},
{1185,1184},
{1187,1186},
{1189,1188},
{1191,1190},
{1193,1192},
{1195,1194},
{1197,1196},
{1199,1198},
{1201,1200},
{1203,1202},
{1205,1204},
{1207,1206},
{1209,1208},
{1211,1210},
{1213,1212},
{1215,1214},
{1218,1217},
{1220,1219},
{1222,1221},
{1224,1223},
{1226,1225},
{1228,1227},
{1230,1229},
{1231,1216},
{1233,1232},
{1235,1234},
{1237,1236},
{1239,1238},
{1241,1240},
{1243,1242},
{1245,1244},
{1247,1246},
{1249,1248},
{1251,1250},
{1253,1252},
{1255,1254},
{1257,1256},
{1259,1258},
{1261,1260},
{1263,1262},
{1265,1264},
{1267,1266},
{1269,1268},
{1271,1270},
{1273,1272},
{1275,1274},
{1277,1276},
{1279,1278},
{1281,1280},
{1283,1282},
{1285,1284},
{1287,1286},
{1289,1288},
{1291,1290},
{1293,1292},
{1295,1294},
{1297,1296},
{1299,1298},
{1301,1300},
{1303,1302},
{1305,1304},
{1307,1306},
{1309,1308},
{1311,1310},
{1313,1312},
{1315,1314},
{1317,1316},
{1319,1318},
{1321,1320},
{1323,1322},
{1325,1324},
{1327,1326},
{1377,1329},
{1378,1330},
{1379,1331},
{1380,1332},
{1381,1333},
{1382,1334},
{1383,1335},
{1384,1336},
{1385,1337},
{1386,1338},
{1387,1339},
{1388,1340},
{1389,1341},
{1390,1342},
{1391,1343},
{1392,1344},
{1393,1345},
{1394,1346},
{1395,1347},
{1396,1348},
{1397,1349},
{1398,1350},
{1399,1351},
{1400,1352},
{1401,1353},
{1402,1354},
{1403,1355},
{1404,1356},
{1405,1357},
{1406,1358},
{1407,1359},
{1408,1360},
{1409,1361},
{1410,1362},
{1411,1363},
{1412,1364},
{1413,1365},
{1414,1366},
{4304,7312},
{4305,7313},
{4306,7314},
{4307,7315},
{4308,7316},
{4309,7317},
{4310,7318},
{4311,7319},
{4312,7320},
{4313,7321},
{4314,7322},
{4315,7323},
{4316,7324},
{4317,7325},
{4318,7326},
{4319,7327},
{4320,7328},
{4321,7329},
{4322,7330},
{4323,7331},
{4324,7332},
{4325,7333},
{4326,7334},
{4327,7335},
{4328,7336},
{4329,7337},
{4330,7338},
{4331,7339},
{4332,7340},
{4333,7341},
{4334,7342},
{4335,7343},
{4336,7344},
{4337,7345},
{4338,7346},
{4339,7347},
{4340,7348},
{4341,7349},
{4342,7350},
{4343,7351},
{4344,7352},
{4345,7353},
{4346,7354},
{4349,7357},
{4350,7358},
{4351,7359},
{5112,5104},
{5113,5105},
{5114,5106},
{5115,5107},
{5116,5108},
{5117,5109},
{7296,1042},
{7297,1044},
{7298,1054},
{7299,1057},
{7300,1058},
{7301,1058},
{7302,1066},
{7303,1122},
{7304,42570},
{7545,42877},
{7549,11363},
{7566,42950},
{7681,7680},
{7683,7682},
{7685,7684},
{7687,7686},
{7689,7688},
{7691,7690},
{7693,7692},
{7695,7694},
{7697,7696},
{7699,7698},
{7701,7700},
{7703,7702},
{7705,7704},
{7707,7706},
{7709,7708},
{7711,7710},
{7713,7712},
{7715,7714},
{7717,7716},
{7719,7718},
{7721,7720},
{7723,7722},
{7725,7724},
{7727,7726},
{7729,7728},
{7731,7730},
{7733,7732},
{7735,7734},
{7737,7736},
{7739,7738},
{7741,7740},
{7743,7742},
{7745,7744},
{7747,7746},
{7749,7748},
{7751,7750},
{7753,7752},
{7755,7754},
{7757,7756},
{7759,7758},
{7761,7760},
{7763,7762},
{7765,7764},
{7767,7766},
{7769,7768},
{7771,7770},
{7773,7772},
{7775,7774},
{7777,7776},
{7779,7778},
{7781,7780},
{7783,7782},
{7785,7784},
{7787,7786},
{7789,7788},
{7791,7790},
{7793,7792},
{7795,7794},
{7797,7796},
{7799,7798},
{7801,7800},
{7803,7802},
{7805,7804},
{7807,7806},
{7809,7808},
{7811,7810},
{7813,7812},
{7815,7814},
{7817,7816},
{7819,7818},
{7821,7820},
{7823,7822},
{7825,7824},
{7827,7826},
{7829,7828},
{7835,7776},
{7841,7840},
{7843,7842},
{7845,7844},
{7847,7846},
{7849,7848},
{7851,7850},
{7853,7852},
{7855,7854},
{7857,7856},
{7859,7858},
{7861,7860},
{7863,7862},
{7865,7864},
{7867,7866},
{7869,7868},
{7871,7870},
{7873,7872},
{7875,7874},
{7877,7876},
{7879,7878},
{7881,7880},
{7883,7882},
{7885,7884},
{7887,7886},
{7889,7888},
{7891,7890},
{7893,7892},
{7895,7894},
{7897,7896},
{7899,7898},
{7901,7900},
{7903,7902},
{7905,7904},
{7907,7906},
{7909,7908},
{7911,7910},
{7913,7912},
{7915,7914},
{7917,7916},
{7919,7918},
{7921,7920},
{7923,7922},
{7925,7924},
{7927,7926},
{7929,7928},
{7931,7930},
{7933,7932},
{7935,7934},
{7936,7944},
{7937,7945},
{7938,7946},
{7939,7947},
{7940,7948},
{7941,7949},
{7942,7950},
{7943,7951},
{7952,7960},
{7953,7961},
{7954,7962},
{7955,7963},
{7956,7964},
{7957,7965},
{7968,7976},
{7969,7977},
{7970,7978},
{7971,7979},
{7972,7980},
{7973,7981},
{7974,7982},
{7975,7983},
{7984,7992},
{7985,7993},
{7986,7994},
{7987,7995},
{7988,7996},
{7989,7997},
{7990,7998},
{7991,7999},
{8000,8008},
{8001,8009},
{8002,8010},
{8003,8011},
{8004,8012},
{8005,8013},
{8017,8025},
{8019,8027},
{8021,8029},
{8023,8031},
{8032,8040},
{8033,8041},
{8034,8042},
{8035,8043},
{8036,8044},
{8037,8045},
{8038,8046},
{8039,8047},
{8048,8122},
{8049,8123},
{8050,8136},
{8051,8137},
{8052,8138},
{8053,8139},
{8054,8154},
{8055,8155},
{8056,8184},
{8057,8185},
{8058,8170},
{8059,8171},
{8060,8186},
{8061,8187},
{8064,8072},
{8065,8073},
{8066,8074},
{8067,8075},
{8068,8076},
{8069,8077},
{8070,8078},
{8071,8079},
{8080,8088},
{8081,8089},
{8082,8090},
{8083,8091},
{8084,8092},
{8085,8093},
{8086,8094},
{8087,8095},
{8096,8104},
{8097,8105},
{8098,8106},
{8099,8107},
{8100,8108},
{8101,8109},
{8102,8110},
{8103,8111},
{8112,8120},
{8113,8121},
{8115,8124},
{8126,921},
{8131,8140},
{8144,8152},
{8145,8153},
{8160,8168},
{8161,8169},
{8165,8172},
{8179,8188},
{8526,8498},
{8580,8579},
{11312,11264},
{11313,11265},
{11314,11266},
{11315,11267},
{11316,11268},
{11317,11269},
{11318,11270},
{11319,11271},
{11320,11272},
{11321,11273},
{11322,11274},
{11323,11275},
{11324,11276},
{11325,11277},
{11326,11278},
{11327,11279},
{11328,11280},
{11329,11281},
{11330,11282},
{11331,11283},
{11332,11284},
{11333,11285},
{11334,11286},
{11335,11287},
{11336,11288},
{11337,11289},
{11338,11290},
{11339,11291},
{11340,11292},
{11341,11293},
{11342,11294},
{11343,11295},
{11344,11296},
{11345,11297},
{11346,11298},
{11347,11299},
{11348,11300},
{11349,11301},
{11350,11302},
{11351,11303},
{11352,11304},
{11353,11305},
{11354,11306},
{11355,11307},
{11356,11308},
{11357,11309},
{11358,11310},
{11361,11360},
{11365,570},
{11366,574},
{11368,11367},
{11370,11369},
{11372,11371},
{11379,11378},
{11382,11381},
{11393,11392},
{11395,11394},
{11397,11396},
{11399,11398},
{11401,11400},
{11403,11402},
{11405,11404},
{11407,11406},
{11409,11408},
{11411,11410},
{11413,11412},
{11415,11414},
{11417,11416},
{11419,11418},
{11421,11420},
{11423,11422},
{11425,11424},
{11427,11426},
{11429,11428},
{11431,11430},
{11433,11432},
{11435,11434},
{11437,11436},
{11439,11438},
{11441,11440},
{11443,11442},
{11445,11444},
{11447,11446},
{11449,11448},
{11451,11450},
{11453,11452},
{11455,11454},
{11457,11456},
{11459,11458},
{11461,11460},
{11463,11462},
{11465,11464},
{11467,11466},
{11469,11468},
{11471,11470},
{11473,11472},
{11475,11474},
{11477,11476},
{11479,11478},
{11481,11480},
{11483,11482},
{11485,11484},
{11487,11486},
{11489,11488},
{11491,11490},
{11500,11499},
{11502,11501},
{11507,11506},
{11520,4256},
{11521,4257},
{11522,4258},
{11523,4259},
{11524,4260},
{11525,4261},
{11526,4262},
{11527,4263},
{11528,4264},
{11529,4265},
{11530,4266},
{11531,4267},
{11532,4268},
{11533,4269},
{11534,4270},
{11535,4271},
{11536,4272},
{11537,4273},
{11538,4274},
{11539,4275},
{11540,4276},
{11541,4277},
{11542,4278},
{11543,4279},
{11544,4280},
{11545,4281},
{11546,4282},
{11547,4283},
{11548,4284},
{11549,4285},
{11550,4286},
{11551,4287},
{11552,4288},
{11553,4289},
{11554,4290},
{11555,4291},
{11556,4292},
{11557,4293},
{11559,4295},
{11565,4301},
{42561,42560},
{42563,42562},
{42565,42564},
{42567,42566},
{42569,42568},
{42571,42570},
{42573,42572},
{42575,42574},
{42577,42576},
{42579,42578},
{42581,42580},
{42583,42582},
{42585,42584},
{42587,42586},
{42589,42588},
{42591,42590},
{42593,42592},
{42595,42594},
{42597,42596},
{42599,42598},
{42601,42600},
{42603,42602},
{42605,42604},
{42625,42624},
{42627,42626},
{42629,42628},
{42631,42630},
{42633,42632},
{42635,42634},
{42637,42636},
{42639,42638},
{42641,42640},
{42643,42642},
{42645,42644},
{42647,42646},
{42649,42648},
{42651,42650},
{42787,42786},
{42789,42788},
{42791,42790},
{42793,42792},
{42795,42794},
{42797,42796},
{42799,42798},
{42803,42802},
{42805,42804},
{42807,42806},
{42809,42808},
{42811,42810},
{42813,42812},
{42815,42814},
{42817,42816},
{42819,42818},
{42821,42820},
{42823,42822},
{42825,42824},
{42827,42826},
{42829,42828},
{42831,42830},
{42833,42832},
{42835,42834},
{42837,42836},
{42839,42838},
{42841,42840},
{42843,42842},
{42845,42844},
{42847,42846},
{42849,42848},
{42851,42850},
{42853,42852},
{42855,42854},
{42857,42856},
{42859,42858},
{42861,42860},
{42863,42862},
{42874,42873},
{42876,42875},
{42879,42878},
{42881,42880},
{42883,42882},
{42885,42884},
{42887,42886},
{42892,42891},
{42897,42896},
{42899,42898},
{42900,42948},
{42903,42902},
{42905,42904},
{42907,42906},
{42909,42908},
{42911,42910},
{42913,42912},
{42915,42914},
{42917,42916},
{42919,42918},
{42921,42920},
{42933,42932},
{42935,42934},
{42937,42936},
{42939,42938},
{42941,42940},
{42943,42942},
{42947,42946},
{42952,42951},
{42954,42953},
{42998,42997},
{43859,42931},
{43888,5024},
{43889,5025},
{43890,5026},
{43891,5027},
{43892,5028},
{43893,5029},
{43894,5030},
{43895,5031},
{43896,5032},
{43897,5033},
{43898,5034},
{43899,5035},
{43900,5036},
{43901,5037},
{43902,5038},
{43903,5039},
{43904,5040},
{43905,5041},
{43906,5042},
{43907,5043},
{43908,5044},
{43909,5045},
{43910,5046},
{43911,5047},
{43912,5048},
{43913,5049},
{43914,5050},
{43915,5051},
{43916,5052},
{43917,5053},
{43918,5054},
{43919,5055},
{43920,5056},
{43921,5057},
{43922,5058},
{43923,5059},
{43924,5060},
{43925,5061},
{43926,5062},
{43927,5063},
{43928,5064},
{43929,5065},
{43930,5066},
{43931,5067},
{43932,5068},
{43933,5069},
{43934,5070},
{43935,5071},
{43936,5072},
{43937,5073},
{43938,5074},
{43939,5075},
{43940,5076},
{43941,5077},
{43942,5078},
{43943,5079},
{43944,5080},
{43945,5081},
{43946,5082},
{43947,5083},
{43948,5084},
{43949,5085},
{43950,5086},
{43951,5087},
{43952,5088},
{43953,5089},
{43954,5090},
{43955,5091},
{43956,5092},
{43957,5093},
{43958,5094},
{43959,5095},
{43960,5096},
{43961,5097},
{43962,5098},
{43963,5099},
{43964,5100},
{43965,5101},
{43966,5102},
{43967,5103},
{65345,65313},
{65346,65314},
{65347,65315},
{65348,65316},
{65349,65317},
{65350,65318},
{65351,65319},
{65352,65320},
{65353,65321},
{65354,65322},
{65355,65323},
{65356,65324},
{65357,65325},
{65358,65326},
{65359,65327},
{65360,65328},
{65361,65329},
{65362,65330},
{65363,65331},
{65364,65332},
{65365,65333},
{65366,65334},
{65367,65335},
{65368,65336},
{65369,65337},
{65370,65338},
{66600,66560},
{66601,66561},
{66602,66562},
{66603,66563},
{66604,66564},
{66605,66565},
{66606,66566},
{66607,66567},
{66608,66568},
{66609,66569},
{66610,66570},
{66611,66571},
{66612,66572},
{66613,66573},
{66614,66574},
{66615,66575},
{66616,66576},
{66617,66577},
{66618,66578},
{66619,66579},
{66620,66580},
{66621,66581},
{66622,66582},
{66623,66583},
{66624,66584},
{66625,66585},
{66626,66586},
{66627,66587},
{66628,66588},
{66629,66589},
{66630,66590},
{66631,66591},
{66632,66592},
{66633,66593},
{66634,66594},
{66635,66595},
{66636,66596},
{66637,66597},
{66638,66598},
{66639,66599},
{66776,66736},
{66777,66737},
{66778,66738},
{66779,66739},
{66780,66740},
{66781,66741},
{66782,66742},
{66783,66743},
{66784,66744},
{66785,66745},
{66786,66746},
{66787,66747},
{66788,66748},
{66789,66749},
{66790,66750},
{66791,66751},
{66792,66752},
{66793,66753},
{66794,66754},
{66795,66755},
{66796,66756},
{66797,66757},
{66798,66758},
{66799,66759},
{66800,66760},
{66801,66761},
{66802,66762},
{66803,66763},
{66804,66764},
{66805,66765},
{66806,66766},
{66807,66767},
{66808,66768},
{66809,66769},
{66810,66770},
{66811,66771},
{68800,68736},
{68801,68737},
{68802,68738},
{68803,68739},
{68804,68740},
{68805,68741},
{68806,68742},
{68807,68743},
{68808,68744},
{68809,68745},
{68810,68746},
{68811,68747},
{68812,68748},
{68813,68749},
{68814,68750},
{68815,68751},
{68816,68752},
{68817,68753},
{68818,68754},
{68819,68755},
{68820,68756},
{68821,68757},
{68822,68758},
{68823,68759},
{68824,68760},
{68825,68761},
{68826,68762},
{68827,68763},
{68828,68764},
{68829,68765},
{68830,68766},
{68831,68767},
{68832,68768},
{68833,68769},
{68834,68770},
{68835,68771},
{68836,68772},
{68837,68773},
{68838,68774},
{68839,68775},
{68840,68776},
{68841,68777},
{68842,68778},
{68843,68779},
{68844,68780},
{68845,68781},
{68846,68782},
{68847,68783},
{68848,68784},
{68849,68785},
{68850,68786},
{71872,71840},
{71873,71841},
{71874,71842},
{71875,71843},
{71876,71844},
{71877,71845},
{71878,71846},
{71879,71847},
{71880,71848},
{71881,71849},
{71882,71850},
{71883,71851},
{71884,71852},
{71885,71853},
{71886,71854},
{71887,71855},
{71888,71856},
{71889,71857},
{71890,71858},
{71891,71859},
{71892,71860},
{71893,71861},
{71894,71862},
{71895,71863},
{71896,71864},
{71897,71865},
{71898,71866},
{71899,71867},
{71900,71868},
{71901,71869},
{71902,71870},
{71903,71871},
{93792,93760},
{93793,93761},
{93794,93762},
{93795,93763},
{93796,93764},
{93797,93765},
{93798,93766},
{93799,93767},
{93800,93768},
{93801,93769},
{93802,93770},
{93803,93771},
{93804,93772},
{93805,93773},
{93806,93774},
{93807,93775},
{93808,93776},
{93809,93777},
{93810,93778},
{93811,93779},
{93812,93780},
{93813,93781},
{93814,93782},
{93815,93783},
{93816,93784},
{93817,93785},
{93818,93786},
{93819,93787},
{93820,93788},
{93821,93789},
{93822,93790},
{93823,93791},
{125218,125184},
{125219,125185},
{125220,125186},
{125221,125187},
{125222,125188},
{125223,125189},
{125224,125190},
{125225,125191},
{125226,125192},
{125227,125193},
{125228,125194},
{125229,125195},
{125230,125196},
{125231,125197},
{125232,125198},
{125233,125199},
{125234,125200},
{125235,125201},
{125236,125202},
{125237,125203},
{125238,125204},
{125239,125205},
{125240,125206},
{125241,125207},
{125242,125208},
{125243,125209},
{125244,125210},
{125245,125211},
{125246,125212},
{125247,125213},
{125248,125214},
{125249,125215},
{125250,125216},
{125251,125217},
};
static const unsigned t_decomp[][3] = {
{192,65,768},
{193,65,769},
{194,65,770},
{195,65,771},
{196,65,776},
{197,65,778},
{199,67,807},
{200,69,768},
{201,69,769},
{202,69,770},
{203,69,776},
{204,73,768},
{205,73,769},
{206,73,770},
{207,73,776},
{209,78,771},
{210,79,768},
{211,79,769},
{212,79,770},
{213,79,771},
{214,79,776},
{217,85,768},
{218,85,769},
{219,85,770},
{220,85,776},
{221,89,769},
{224,97,768},
{225,97,769},
{226,97,770},
{227,97,771},
{228,97,776},
{229,97,778},
{231,99,807},
{232,101,768},
{233,101,769},
{234,101,770},
{235,101,776},
{236,105,768},
{237,105,769},
{238,105,770},
{239,105,776},
{241,110,771},
{242,111,768},
{243,111,769},
{244,111,770},
{245,111,771},
{246,111,776},
{249,117,768},
{250,117,769},
{251,117,770},
{252,117,776},
{253,121,769},
{255,121,776},
{256,65,772},
{257,97,772},
{258,65,774},
{259,97,774},
{260,65,808},
{261,97,808},
{262,67,769},
{263,99,769},
{264,67,770},
{265,99,770},
{266,67,775},
{267,99,775},
{268,67,780},
{269,99,780},
{270,68,780},
{271,100,780},
{274,69,772},
{275,101,772},
{276,69,774},
{277,101,774},
{278,69,775},
{279,101,775},
{280,69,808},
{281,101,808},
{282,69,780},
{283,101,780},
{284,71,770},
{285,103,770},
{286,71,774},
{287,103,774},
{288,71,775},
{289,103,775},
{290,71,807},
{291,103,807},
{292,72,770},
{293,104,770},
{296,73,771},
{297,105,771},
{298,73,772},
{299,105,772},
{300,73,774},
{301,105,774},
{302,73,808},
{303,105,808},
{304,73,775},
{308,74,770},
{309,106,770},
{310,75,807},
{311,107,807},
{313,76,769},
{314,108,769},
{315,76,807},
{316,108,807},
{317,76,780},
{318,108,780},
{323,78,769},
{324,110,769},
{325,78,807},
{326,110,807},
{327,78,780},
{328,110,780},
{332,79,772},
{333,111,772},
{334,79,774},
{335,111,774},
{336,79,779},
{337,111,779},
{340,82,769},
{341,114,769},
{342,82,807},
{343,114,807},
{344,82,780},
{345,114,780},
{346,83,769},
{347,115,769},
{348,83,770},
{349,115,770},
{350,83,807},
{351,115,807},
{352,83,780},
{353,115,780},
{354,84,807},
{355,116,807},
{356,84,780},
{357,116,780},
{360,85,771},
{361,117,771},
{362,85,772},
{363,117,772},
{364,85,774},
{365,117,774},
{366,85,778},
{367,117,778},
{368,85,779},
{369,117,779},
{370,85,808},
{371,117,808},
{372,87,770},
{373,119,770},
{374,89,770},
{375,121,770},
{376,89,776},
{377,90,769},
{378,122,769},
{379,90,775},
{380,122,775},
{381,90,780},
{382,122,780},
{416,79,795},
{417,111,795},
{431,85,795},
{432,117,795},
{461,65,780},
{462,97,780},
{463,73,780},
{464,105,780},
{465,79,780},
{466,111,780},
{467,85,780},
{468,117,780},
{469,220,772},
{470,252,772},
{471,220,769},
{472,252,769},
{473,220,780},
{474,252,780},
{475,220,768},
{476,252,768},
{478,196,772},
{479,228,772},
{480,550,772},
{481,551,772},
{482,198,772},
{483,230,772},
{486,71,780},
{487,103,780},
{488,75,780},
{489,107,780},
{490,79,808},
{491,111,808},
{492,490,772},
{493,491,772},
{494,439,780},
{495,658,780},
{496,106,780},
{500,71,769},
{501,103,769},
{504,78,768},
{505,110,768},
{506,197,769},
{507,229,769},
{508,198,769},
{509,230,769},
{510,216,769},
{511,248,769},
{512,65,783},
{513,97,783},
{514,65,785},
{515,97,785},
{516,69,783},
{517,101,783},
{518,69,785},
{519,101,785},
{520,73,783},
{521,105,783},
{522,73,785},
{523,105,785},
{524,79,783},
{525,111,783},
{526,79,785},
{527,111,785},
{528,82,783},
{529,114,783},
{530,82,785},
{531,114,785},
{532,85,783},
{533,117,783},
{534,85,785},
{535,117,785},
{536,83,806},
{537,115,806},
{538,84,806},
{539,116,806},
{542,72,780},
{543,104,780},
{550,65,775},
{551,97,775},
{552,69,807},
{553,101,807},
{554,214,772},
{555,246,772},
{556,213,772},
{557,245,772},
{558,79,775},
{559,111,775},
{560,558,772},
{561,559,772},
{562,89,772},
{563,121,772},
{832,768,0},
{833,769,0},
{835,787,0},
{836,776,769},
{884,697,0},
{894,59,0},
{901,168,769},
{902,913,769},
{903,183,0},
{904,917,769},
{905,919,769},
{906,921,769},
{908,927,769},
{910,933,769},
{911,937,769},
{912,970,769},
{938,921,776},
{939,933,776},
{940,945,769},
{941,949,769},
{942,951,769},
{943,953,769},
{944,971,769},
{970,953,776},
{971,965,776},
{972,959,769},
{973,965,769},
{974,969,769},
{979,978,769},
{980,978,776},
{1024,1045,768},
{1025,1045,776},
{1027,1043,769},
{1031,1030,776},
{1036,1050,769},
{1037,1048,768},
{1038,1059,774},
{1049,1048,774},
{1081,1080,774},
{1104,1077,768},
{1105,1077,776},
{1107,1075,769},
{1111,1110,776},
{1116,1082,769},
{1117,1080,768},
{1118,1091,774},
{1142,1140,783},
{1143,1141,783},
{1217,1046,774},
{1218,1078,774},
{1232,1040,774},
{1233,1072,774},
{1234,1040,776},
{1235,1072,776},
{1238,1045,774},
{1239,1077,774},
{1242,1240,776},
{1243,1241,776},
{1244,1046,776},
{1245,1078,776},
{1246,1047,776},
{1247,1079,776},
{1250,1048,772},
{1251,1080,772},
{1252,1048,776},
{1253,1080,776},
{1254,1054,776},
{1255,1086,776},
{1258,1256,776},
{1259,1257,776},
{1260,1069,776},
{1261,1101,776},
{1262,1059,772},
{1263,1091,772},
{1264,1059,776},
{1265,1091,776},
{1266,1059,779},
{1267,1091,779},
{1268,1063,776},
{1269,1095,776},
{1272,1067,776},
{1273,1099,776},
{1570,1575,1619},
{1571,1575,1620},
{1572,1608,1620},
{1573,1575,1621},
{1574,1610,1620},
{1728,1749,1620},
{1730,1729,1620},
{1747,1746,1620},
{2345,2344,2364},
{2353,2352,2364},
{2356,2355,2364},
{2392,2325,2364},
{2393,2326,2364},
{2394,2327,2364},
{2395,2332,2364},
{2396,2337,2364},
{2397,2338,2364},
{2398,2347,2364},
{2399,2351,2364},
{2507,2503,2494},
{2508,2503,2519},
{2524,2465,2492},
{2525,2466,2492},
{2527,2479,2492},
{2611,2610,2620},
{2614,2616,2620},
{2649,2582,2620},
{2650,2583,2620},
{2651,2588,2620},
{2654,2603,2620},
{2888,2887,2902},
{2891,2887,2878},
{2892,2887,2903},
{2908,2849,2876},
{2909,2850,2876},
{2964,2962,3031},
{3018,3014,3006},
{3019,3015,3006},
{3020,3014,3031},
{3144,3142,3158},
{3264,3263,3285},
{3271,3270,3285},
{3272,3270,3286},
{3274,3270,3266},
{3275,3274,3285},
{3402,3398,3390},
{3403,3399,3390},
{3404,3398,3415},
{3546,3545,3530},
{3548,3545,3535},
{3549,3548,3530},
{3550,3545,3551},
{3907,3906,4023},
{3917,3916,4023},
{3922,3921,4023},
{3927,3926,4023},
{3932,3931,4023},
{3945,3904,4021},
{3955,3953,3954},
{3957,3953,3956},
{3958,4018,3968},
{3960,4019,3968},
{3969,3953,3968},
{3987,3986,4023},
{3997,3996,4023},
{4002,4001,4023},
{4007,4006,4023},
{4012,4011,4023},
{4025,3984,4021},
{4134,4133,4142},
{6918,6917,6965},
{6920,6919,6965},
{6922,6921,6965},
{6924,6923,6965},
{6926,6925,6965},
{6930,6929,6965},
{6971,6970,6965},
{6973,6972,6965},
{6976,6974,6965},
{6977,6975,6965},
{6979,6978,6965},
{7680,65,805},
{7681,97,805},
{7682,66,775},
{7683,98,775},
{7684,66,803},
{7685,98,803},
{7686,66,817},
{7687,98,817},
{7688,199,769},
{7689,231,769},
{7690,68,775},
{7691,100,775},
{7692,68,803},
{7693,100,803},
{7694,68,817},
{7695,100,817},
{7696,68,807},
{7697,100,807},
{7698,68,813},
{7699,100,813},
{7700,274,768},
{7701,275,768},
{7702,274,769},
{7703,275,769},
{7704,69,813},
{7705,101,813},
{7706,69,816},
{7707,101,816},
{7708,552,774},
{7709,553,774},
{7710,70,775},
{7711,102,775},
{7712,71,772},
{7713,103,772},
{7714,72,775},
{7715,104,775},
{7716,72,803},
{7717,104,803},
{7718,72,776},
{7719,104,776},
{7720,72,807},
{7721,104,807},
{7722,72,814},
{7723,104,814},
{7724,73,816},
{7725,105,816},
{7726,207,769},
{7727,239,769},
{7728,75,769},
{7729,107,769},
{7730,75,803},
{7731,107,803},
{7732,75,817},
{7733,107,817},
{7734,76,803},
{7735,108,803},
{7736,7734,772},
{7737,7735,772},
{7738,76,817},
{7739,108,817},
{7740,76,813},
{7741,108,813},
{7742,77,769},
{7743,109,769},
{7744,77,775},
{7745,109,775},
{7746,77,803},
{7747,109,803},
{7748,78,775},
{7749,110,775},
{7750,78,803},
{7751,110,803},
{7752,78,817},
{7753,110,817},
{7754,78,813},
{7755,110,813},
{7756,213,769},
{7757,245,769},
{7758,213,776},
{7759,245,776},
{7760,332,768},
{7761,333,768},
{7762,332,769},
{7763,333,769},
{7764,80,769},
{7765,112,769},
{7766,80,775},
{7767,112,775},
{7768,82,775},
{7769,114,775},
{7770,82,803},
{7771,114,803},
{7772,7770,772},
{7773,7771,772},
{7774,82,817},
{7775,114,817},
{7776,83,775},
{7777,115,775},
{7778,83,803},
{7779,115,803},
{7780,346,775},
{7781,347,775},
{7782,352,775},
{7783,353,775},
{7784,7778,775},
{7785,7779,775},
{7786,84,775},
{7787,116,775},
{7788,84,803},
{7789,116,803},
{7790,84,817},
{7791,116,817},
{7792,84,813},
{7793,116,813},
{7794,85,804},
{7795,117,804},
{7796,85,816},
{7797,117,816},
{7798,85,813},
{7799,117,813},
{7800,360,769},
{7801,361,769},
{7802,362,776},
{7803,363,776},
{7804,86,771},
{7805,118,771},
{7806,86,803},
{7807,118,803},
{7808,87,768},
{7809,119,768},
{7810,87,769},
{7811,119,769},
{7812,87,776},
{7813,119,776},
{7814,87,775},
{7815,119,775},
{7816,87,803},
{7817,119,803},
{7818,88,775},
{7819,120,775},
{7820,88,776},
{7821,120,776},
{7822,89,775},
{7823,121,775},
{7824,90,770},
{7825,122,770},
{7826,90,803},
{7827,122,803},
{7828,90,817},
{7829,122,817},
{7830,104,817},
{7831,116,776},
{7832,119,778},
{7833,121,778},
{7835,383,775},
{7840,65,803},
{7841,97,803},
{7842,65,777},
{7843,97,777},
{7844,194,769},
{7845,226,769},
{7846,194,768},
{7847,226,768},
{7848,194,777},
{7849,226,777},
{7850,194,771},
{7851,226,771},
{7852,7840,770},
{7853,7841,770},
{7854,258,769},
{7855,259,769},
{7856,258,768},
{7857,259,768},
{7858,258,777},
{7859,259,777},
{7860,258,771},
{7861,259,771},
{7862,7840,774},
{7863,7841,774},
{7864,69,803},
{7865,101,803},
{7866,69,777},
{7867,101,777},
{7868,69,771},
{7869,101,771},
{7870,202,769},
{7871,234,769},
{7872,202,768},
{7873,234,768},
{7874,202,777},
{7875,234,777},
{7876,202,771},
{7877,234,771},
{7878,7864,770},
{7879,7865,770},
{7880,73,777},
{7881,105,777},
{7882,73,803},
{7883,105,803},
{7884,79,803},
{7885,111,803},
{7886,79,777},
{7887,111,777},
{7888,212,769},
{7889,244,769},
{7890,212,768},
{7891,244,768},
{7892,212,777},
{7893,244,777},
{7894,212,771},
{7895,244,771},
{7896,7884,770},
{7897,7885,770},
{7898,416,769},
{7899,417,769},
{7900,416,768},
{7901,417,768},
{7902,416,777},
{7903,417,777},
{7904,416,771},
{7905,417,771},
{7906,416,803},
{7907,417,803},
{7908,85,803},
{7909,117,803},
{7910,85,777},
{7911,117,777},
{7912,431,769},
{7913,432,769},
{7914,431,768},
{7915,432,768},
{7916,431,777},
{7917,432,777},
{7918,431,771},
{7919,432,771},
{7920,431,803},
{7921,432,803},
{7922,89,768},
{7923,121,768},
{7924,89,803},
{7925,121,803},
{7926,89,777},
{7927,121,777},
{7928,89,771},
{7929,121,771},
{7936,945,787},
{7937,945,788},
{7938,7936,768},
{7939,7937,768},
{7940,7936,769},
{7941,7937,769},
{7942,7936,834},
{7943,7937,834},
{7944,913,787},
{7945,913,788},
{7946,7944,768},
{7947,7945,768},
{7948,7944,769},
{7949,7945,769},
{7950,7944,834},
{7951,7945,834},
{7952,949,787},
{7953,949,788},
{7954,7952,768},
{7955,7953,768},
{7956,7952,769},
{7957,7953,769},
{7960,917,787},
{7961,917,788},
{7962,7960,768},
{7963,7961,768},
{7964,7960,769},
{7965,7961,769},
{7968,951,787},
{7969,951,788},
{7970,7968,768},
{7971,7969,768},
{7972,7968,769},
{7973,7969,769},
{7974,7968,834},
{7975,7969,834},
{7976,919,787},
{7977,919,788},
{7978,7976,768},
{7979,7977,768},
{7980,7976,769},
{7981,7977,769},
{7982,7976,834},
{7983,7977,834},
{7984,953,787},
{7985,953,788},
{7986,7984,768},
{7987,7985,768},
{7988,7984,769},
{7989,7985,769},
{7990,7984,834},
{7991,7985,834},
{7992,921,787},
{7993,921,788},
{7994,7992,768},
{7995,7993,768},
{7996,7992,769},
{7997,7993,769},
{7998,7992,834},
{7999,7993,834},
{8000,959,787},
{8001,959,788},
{8002,8000,768},
{8003,8001,768},
{8004,8000,769},
{8005,8001,769},
{8008,927,787},
{8009,927,788},
{8010,8008,768},
{8011,8009,768},
{8012,8008,769},
{8013,8009,769},
{8016,965,787},
{8017,965,788},
{8018,8016,768},
{8019,8017,768},
{8020,8016,769},
{8021,8017,769},
{8022,8016,834},
{8023,8017,834},
{8025,933,788},
{8027,8025,768},
{8029,8025,769},
{8031,8025,834},
{8032,969,787},
{8033,969,788},
{8034,8032,768},
{8035,8033,768},
{8036,8032,769},
{8037,8033,769},
{8038,8032,834},
{8039,8033,834},
{8040,937,787},
{8041,937,788},
{8042,8040,768},
{8043,8041,768},
{8044,8040,769},
{8045,8041,769},
{8046,8040,834},
{8047,8041,834},
{8048,945,768},
{8049,940,0},
{8050,949,768},
{8051,941,0},
{8052,951,768},
{8053,942,0},
{8054,953,768},
{8055,943,0},
{8056,959,768},
{8057,972,0},
{8058,965,768},
{8059,973,0},
{8060,969,768},
{8061,974,0},
{8064,7936,837},
{8065,7937,837},
{8066,7938,837},
{8067,7939,837},
{8068,7940,837},
{8069,7941,837},
{8070,7942,837},
{8071,7943,837},
{8072,7944,837},
{8073,7945,837},
{8074,7946,837},
{8075,7947,837},
{8076,7948,837},
{8077,7949,837},
{8078,7950,837},
{8079,7951,837},
{8080,7968,837},
{8081,7969,837},
{8082,7970,837},
{8083,7971,837},
{8084,7972,837},
{8085,7973,837},
{8086,7974,837},
{8087,7975,837},
{8088,7976,837},
{8089,7977,837},
{8090,7978,837},
{8091,7979,837},
{8092,7980,837},
{8093,7981,837},
{8094,7982,837},
{8095,7983,837},
{8096,8032,837},
{8097,8033,837},
{8098,8034,837},
{8099,8035,837},
{8100,8036,837},
{8101,8037,837},
{8102,8038,837},
{8103,8039,837},
{8104,8040,837},
{8105,8041,837},
{8106,8042,837},
{8107,8043,837},
{8108,8044,837},
{8109,8045,837},
{8110,8046,837},
{8111,8047,837},
{8112,945,774},
{8113,945,772},
{8114,8048,837},
{8115,945,837},
{8116,940,837},
{8118,945,834},
{8119,8118,837},
{8120,913,774},
{8121,913,772},
{8122,913,768},
{8123,902,0},
{8124,913,837},
{8126,953,0},
{8129,168,834},
{8130,8052,837},
{8131,951,837},
{8132,942,837},
{8134,951,834},
{8135,8134,837},
{8136,917,768},
{8137,904,0},
{8138,919,768},
{8139,905,0},
{8140,919,837},
{8141,8127,768},
{8142,8127,769},
{8143,8127,834},
{8144,953,774},
{8145,953,772},
{8146,970,768},
{8147,912,0},
{8150,953,834},
{8151,970,834},
{8152,921,774},
{8153,921,772},
{8154,921,768},
{8155,906,0},
{8157,8190,768},
{8158,8190,769},
{8159,8190,834},
{8160,965,774},
{8161,965,772},
{8162,971,768},
{8163,944,0},
{8164,961,787},
{8165,961,788},
{8166,965,834},
{8167,971,834},
{8168,933,774},
{8169,933,772},
{8170,933,768},
{8171,910,0},
{8172,929,788},
{8173,168,768},
{8174,901,0},
{8175,96,0},
{8178,8060,837},
{8179,969,837},
{8180,974,837},
{8182,969,834},
{8183,8182,837},
{8184,927,768},
{8185,908,0},
{8186,937,768},
{8187,911,0},
{8188,937,837},
{8189,180,0},
{8192,8194,0},
{8193,8195,0},
{8486,937,0},
{8490,75,0},
{8491,197,0},
{8602,8592,824},
{8603,8594,824},
{8622,8596,824},
{8653,8656,824},
{8654,8660,824},
{8655,8658,824},
{8708,8707,824},
{8713,8712,824},
{8716,8715,824},
{8740,8739,824},
{8742,8741,824},
{8769,8764,824},
{8772,8771,824},
{8775,8773,824},
{8777,8776,824},
{8800,61,824},
{8802,8801,824},
{8813,8781,824},
{8814,60,824},
{8815,62,824},
{8816,8804,824},
{8817,8805,824},
{8820,8818,824},
{8821,8819,824},
{8824,8822,824},
{8825,8823,824},
{8832,8826,824},
{8833,8827,824},
{8836,8834,824},
{8837,8835,824},
{8840,8838,824},
{8841,8839,824},
{8876,8866,824},
{8877,8872,824},
{8878,8873,824},
{8879,8875,824},
{8928,8828,824},
{8929,8829,824},
{8930,8849,824},
{8931,8850,824},
{8938,8882,824},
{8939,8883,824},
{8940,8884,824},
{8941,8885,824},
{9001,12296,0},
{9002,12297,0},
{10972,10973,824},
{12364,12363,12441},
{12366,12365,12441},
{12368,12367,12441},
{12370,12369,12441},
{12372,12371,12441},
{12374,12373,12441},
{12376,12375,12441},
{12378,12377,12441},
{12380,12379,12441},
{12382,12381,12441},
{12384,12383,12441},
{12386,12385,12441},
{12389,12388,12441},
{12391,12390,12441},
{12393,12392,12441},
{12400,12399,12441},
{12401,12399,12442},
{12403,12402,12441},
{12404,12402,12442},
{12406,12405,12441},
{12407,12405,12442},
{12409,12408,12441},
{12410,12408,12442},
{12412,12411,12441},
{12413,12411,12442},
{12436,12358,12441},
{12446,12445,12441},
{12460,12459,12441},
{12462,12461,12441},
{12464,12463,12441},
{12466,12465,12441},
{12468,12467,12441},
{12470,12469,12441},
{12472,12471,12441},
{12474,12473,12441},
{12476,12475,12441},
{12478,12477,12441},
{12480,12479,12441},
{12482,12481,12441},
{12485,12484,12441},
{12487,12486,12441},
{12489,12488,12441},
{12496,12495,12441},
{12497,12495,12442},
{12499,12498,12441},
{12500,12498,12442},
{12502,12501,12441},
{12503,12501,12442},
{12505,12504,12441},
{12506,12504,12442},
{12508,12507,12441},
{12509,12507,12442},
{12532,12454,12441},
{12535,12527,12441},
{12536,12528,12441},
{12537,12529,12441},
{12538,12530,12441},
{12542,12541,12441},
{63744,35912,0},
{63745,26356,0},
{63746,36554,0},
{63747,36040,0},
{63748,28369,0},
{63749,20018,0},
{63750,21477,0},
{63751,40860,0},
{63752,40860,0},
{63753,22865,0},
{63754,37329,0},
{63755,21895,0},
{63756,22856,0},
{63757,25078,0},
{63758,30313,0},
{63759,32645,0},
{63760,34367,0},
{63761,34746,0},
{63762,35064,0},
{63763,37007,0},
{63764,27138,0},
{63765,27931,0},
{63766,28889,0},
{63767,29662,0},
{63768,33853,0},
{63769,37226,0},
{63770,39409,0},
{63771,20098,0},
{63772,21365,0},
{63773,27396,0},
{63774,29211,0},
{63775,34349,0},
{63776,40478,0},
{63777,23888,0},
{63778,28651,0},
{63779,34253,0},
{63780,35172,0},
{63781,25289,0},
{63782,33240,0},
{63783,34847,0},
{63784,24266,0},
{63785,26391,0},
{63786,28010,0},
{63787,29436,0},
{63788,37070,0},
{63789,20358,0},
{63790,20919,0},
{63791,21214,0},
{63792,25796,0},
{63793,27347,0},
{63794,29200,0},
{63795,30439,0},
{63796,32769,0},
{63797,34310,0},
{63798,34396,0},
{63799,36335,0},
{63800,38706,0},
{63801,39791,0},
{63802,40442,0},
{63803,30860,0},
{63804,31103,0},
{63805,32160,0},
{63806,33737,0},
{63807,37636,0},
{63808,40575,0},
{63809,35542,0},
{63810,22751,0},
{63811,24324,0},
{63812,31840,0},
{63813,32894,0},
{63814,29282,0},
{63815,30922,0},
{63816,36034,0},
{63817,38647,0},
{63818,22744,0},
{63819,23650,0},
{63820,27155,0},
{63821,28122,0},
{63822,28431,0},
{63823,32047,0},
{63824,32311,0},
{63825,38475,0},
{63826,21202,0},
{63827,32907,0},
{63828,20956,0},
{63829,20940,0},
{63830,31260,0},
{63831,32190,0},
{63832,33777,0},
{63833,38517,0},
{63834,35712,0},
{63835,25295,0},
{63836,27138,0},
{63837,35582,0},
{63838,20025,0},
{63839,23527,0},
{63840,24594,0},
{63841,29575,0},
{63842,30064,0},
{63843,21271,0},
{63844,30971,0},
{63845,20415,0},
{63846,24489,0},
{63847,19981,0},
{63848,27852,0},
{63849,25976,0},
{63850,32034,0},
{63851,21443,0},
{63852,22622,0},
{63853,30465,0},
{63854,33865,0},
{63855,35498,0},
{63856,27578,0},
{63857,36784,0},
{63858,27784,0},
{63859,25342,0},
{63860,33509,0},
{63861,25504,0},
{63862,30053,0},
{63863,20142,0},
{63864,20841,0},
{63865,20937,0},
{63866,26753,0},
{63867,31975,0},
{63868,33391,0},
{63869,35538,0},
{63870,37327,0},
{63871,21237,0},
{63872,21570,0},
{63873,22899,0},
{63874,24300,0},
{63875,26053,0},
{63876,28670,0},
{63877,31018,0},
{63878,38317,0},
{63879,39530,0},
{63880,40599,0},
{63881,40654,0},
{63882,21147,0},
{63883,26310,0},
{63884,27511,0},
{63885,36706,0},
{63886,24180,0},
{63887,24976,0},
{63888,25088,0},
{63889,25754,0},
{63890,28451,0},
{63891,29001,0},
{63892,29833,0},
{63893,31178,0},
{63894,32244,0},
{63895,32879,0},
{63896,36646,0},
{63897,34030,0},
{63898,36899,0},
{63899,37706,0},
{63900,21015,0},
{63901,21155,0},
{63902,21693,0},
{63903,28872,0},
{63904,35010,0},
{63905,35498,0},
{63906,24265,0},
{63907,24565,0},
{63908,25467,0},
{63909,27566,0},
{63910,31806,0},
{63911,29557,0},
{63912,20196,0},
{63913,22265,0},
{63914,23527,0},
{63915,23994,0},
{63916,24604,0},
{63917,29618,0},
{63918,29801,0},
{63919,32666,0},
{63920,32838,0},
{63921,37428,0},
{63922,38646,0},
{63923,38728,0},
{63924,38936,0},
{63925,20363,0},
{63926,31150,0},
{63927,37300,0},
{63928,38584,0},
{63929,24801,0},
{63930,20102,0},
{63931,20698,0},
{63932,23534,0},
{63933,23615,0},
{63934,26009,0},
{63935,27138,0},
{63936,29134,0},
{63937,30274,0},
{63938,34044,0},
{63939,36988,0},
{63940,40845,0},
{63941,26248,0},
{63942,38446,0},
{63943,21129,0},
{63944,26491,0},
{63945,26611,0},
{63946,27969,0},
{63947,28316,0},
{63948,29705,0},
{63949,30041,0},
{63950,30827,0},
{63951,32016,0},
{63952,39006,0},
{63953,20845,0},
{63954,25134,0},
{63955,38520,0},
{63956,20523,0},
{63957,23833,0},
{63958,28138,0},
{63959,36650,0},
{63960,24459,0},
{63961,24900,0},
{63962,26647,0},
{63963,29575,0},
{63964,38534,0},
{63965,21033,0},
{63966,21519,0},
{63967,23653,0},
{63968,26131,0},
{63969,26446,0},
{63970,26792,0},
{63971,27877,0},
{63972,29702,0},
{63973,30178,0},
{63974,32633,0},
{63975,35023,0},
{63976,35041,0},
{63977,37324,0},
{63978,38626,0},
{63979,21311,0},
{63980,28346,0},
{63981,21533,0},
{63982,29136,0},
{63983,29848,0},
{63984,34298,0},
{63985,38563,0},
{63986,40023,0},
{63987,40607,0},
{63988,26519,0},
{63989,28107,0},
{63990,33256,0},
{63991,31435,0},
{63992,31520,0},
{63993,31890,0},
{63994,29376,0},
{63995,28825,0},
{63996,35672,0},
{63997,20160,0},
{63998,33590,0},
{63999,21050,0},
{64000,20999,0},
{64001,24230,0},
{64002,25299,0},
{64003,31958,0},
{64004,23429,0},
{64005,27934,0},
{64006,26292,0},
{64007,36667,0},
{64008,34892,0},
{64009,38477,0},
{64010,35211,0},
{64011,24275,0},
{64012,20800,0},
{64013,21952,0},
{64016,22618,0},
{64018,26228,0},
{64021,20958,0},
{64022,29482,0},
{64023,30410,0},
{64024,31036,0},
{64025,31070,0},
{64026,31077,0},
{64027,31119,0},
{64028,38742,0},
{64029,31934,0},
{64030,32701,0},
{64032,34322,0},
{64034,35576,0},
{64037,36920,0},
{64038,37117,0},
{64042,39151,0},
{64043,39164,0},
{64044,39208,0},
{64045,40372,0},
{64046,37086,0},
{64047,38583,0},
{64048,20398,0},
{64049,20711,0},
{64050,20813,0},
{64051,21193,0},
{64052,21220,0},
{64053,21329,0},
{64054,21917,0},
{64055,22022,0},
{64056,22120,0},
{64057,22592,0},
{64058,22696,0},
{64059,23652,0},
{64060,23662,0},
{64061,24724,0},
{64062,24936,0},
{64063,24974,0},
{64064,25074,0},
{64065,25935,0},
{64066,26082,0},
{64067,26257,0},
{64068,26757,0},
{64069,28023,0},
{64070,28186,0},
{64071,28450,0},
{64072,29038,0},
{64073,29227,0},
{64074,29730,0},
{64075,30865,0},
{64076,31038,0},
{64077,31049,0},
{64078,31048,0},
{64079,31056,0},
{64080,31062,0},
{64081,31069,0},
{64082,31117,0},
{64083,31118,0},
{64084,31296,0},
{64085,31361,0},
{64086,31680,0},
{64087,32244,0},
{64088,32265,0},
{64089,32321,0},
{64090,32626,0},
{64091,32773,0},
{64092,33261,0},
{64093,33401,0},
{64094,33401,0},
{64095,33879,0},
{64096,35088,0},
{64097,35222,0},
{64098,35585,0},
{64099,35641,0},
{64100,36051,0},
{64101,36104,0},
{64102,36790,0},
{64103,36920,0},
{64104,38627,0},
{64105,38911,0},
{64106,38971,0},
{64107,24693,0},
{64108,148206,0},
{64109,33304,0},
{64112,20006,0},
{64113,20917,0},
{64114,20840,0},
{64115,20352,0},
{64116,20805,0},
{64117,20864,0},
{64118,21191,0},
{64119,21242,0},
{64120,21917,0},
{64121,21845,0},
{64122,21913,0},
{64123,21986,0},
{64124,22618,0},
{64125,22707,0},
{64126,22852,0},
{64127,22868,0},
{64128,23138,0},
{64129,23336,0},
{64130,24274,0},
{64131,24281,0},
{64132,24425,0},
{64133,24493,0},
{64134,24792,0},
{64135,24910,0},
{64136,24840,0},
{64137,24974,0},
{64138,24928,0},
{64139,25074,0},
{64140,25140,0},
{64141,25540,0},
{64142,25628,0},
{64143,25682,0},
{64144,25942,0},
{64145,26228,0},
{64146,26391,0},
{64147,26395,0},
{64148,26454,0},
{64149,27513,0},
{64150,27578,0},
{64151,27969,0},
{64152,28379,0},
{64153,28363,0},
{64154,28450,0},
{64155,28702,0},
{64156,29038,0},
{64157,30631,0},
{64158,29237,0},
{64159,29359,0},
{64160,29482,0},
{64161,29809,0},
{64162,29958,0},
{64163,30011,0},
{64164,30237,0},
{64165,30239,0},
{64166,30410,0},
{64167,30427,0},
{64168,30452,0},
{64169,30538,0},
{64170,30528,0},
{64171,30924,0},
{64172,31409,0},
{64173,31680,0},
{64174,31867,0},
{64175,32091,0},
{64176,32244,0},
{64177,32574,0},
{64178,32773,0},
{64179,33618,0},
{64180,33775,0},
{64181,34681,0},
{64182,35137,0},
{64183,35206,0},
{64184,35222,0},
{64185,35519,0},
{64186,35576,0},
{64187,35531,0},
{64188,35585,0},
{64189,35582,0},
{64190,35565,0},
{64191,35641,0},
{64192,35722,0},
{64193,36104,0},
{64194,36664,0},
{64195,36978,0},
{64196,37273,0},
{64197,37494,0},
{64198,38524,0},
{64199,38627,0},
{64200,38742,0},
{64201,38875,0},
{64202,38911,0},
{64203,38923,0},
{64204,38971,0},
{64205,39698,0},
{64206,40860,0},
{64207,141386,0},
{64208,141380,0},
{64209,144341,0},
{64210,15261,0},
{64211,16408,0},
{64212,16441,0},
{64213,152137,0},
{64214,154832,0},
{64215,163539,0},
{64216,40771,0},
{64217,40846,0},
{64285,1497,1460},
{64287,1522,1463},
{64298,1513,1473},
{64299,1513,1474},
{64300,64329,1473},
{64301,64329,1474},
{64302,1488,1463},
{64303,1488,1464},
{64304,1488,1468},
{64305,1489,1468},
{64306,1490,1468},
{64307,1491,1468},
{64308,1492,1468},
{64309,1493,1468},
{64310,1494,1468},
{64312,1496,1468},
{64313,1497,1468},
{64314,1498,1468},
{64315,1499,1468},
{64316,1500,1468},
{64318,1502,1468},
{64320,1504,1468},
{64321,1505,1468},
{64323,1507,1468},
{64324,1508,1468},
{64326,1510,1468},
{64327,1511,1468},
{64328,1512,1468},
{64329,1513,1468},
{64330,1514,1468},
{64331,1493,1465},
{64332,1489,1471},
{64333,1499,1471},
{64334,1508,1471},
{69786,69785,69818},
{69788,69787,69818},
{69803,69797,69818},
{69934,69937,69927},
{69935,69938,69927},
{70475,70471,70462},
{70476,70471,70487},
{70843,70841,70842},
{70844,70841,70832},
{70846,70841,70845},
{71098,71096,71087},
{71099,71097,71087},
{71992,71989,71984},
{119134,119127,119141},
{119135,119128,119141},
{119136,119135,119150},
{119137,119135,119151},
{119138,119135,119152},
{119139,119135,119153},
{119140,119135,119154},
{119227,119225,119141},
{119228,119226,119141},
{119229,119227,119150},
{119230,119228,119150},
{119231,119227,119151},
{119232,119228,119151},
{194560,20029,0},
{194561,20024,0},
{194562,20033,0},
{194563,131362,0},
{194564,20320,0},
{194565,20398,0},
{194566,20411,0},
{194567,20482,0},
{194568,20602,0},
{194569,20633,0},
{194570,20711,0},
{194571,20687,0},
{194572,13470,0},
{194573,132666,0},
{194574,20813,0},
{194575,20820,0},
{194576,20836,0},
{194577,20855,0},
{194578,132380,0},
{194579,13497,0},
{194580,20839,0},
{194581,20877,0},
{194582,132427,0},
{194583,20887,0},
{194584,20900,0},
{194585,20172,0},
{194586,20908,0},
{194587,20917,0},
{194588,168415,0},
{194589,20981,0},
{194590,20995,0},
{194591,13535,0},
{194592,21051,0},
{194593,21062,0},
{194594,21106,0},
{194595,21111,0},
{194596,13589,0},
{194597,21191,0},
{194598,21193,0},
{194599,21220,0},
{194600,21242,0},
{194601,21253,0},
{194602,21254,0},
{194603,21271,0},
{194604,21321,0},
{194605,21329,0},
{194606,21338,0},
{194607,21363,0},
{194608,21373,0},
{194609,21375,0},
{194610,21375,0},
{194611,21375,0},
{194612,133676,0},
{194613,28784,0},
{194614,21450,0},
{194615,21471,0},
{194616,133987,0},
{194617,21483,0},
{194618,21489,0},
{194619,21510,0},
{194620,21662,0},
{194621,21560,0},
{194622,21576,0},
{194623,21608,0},
{194624,21666,0},
{194625,21750,0},
{194626,21776,0},
{194627,21843,0},
{194628,21859,0},
{194629,21892,0},
{194630,21892,0},
{194631,21913,0},
{194632,21931,0},
{194633,21939,0},
{194634,21954,0},
{194635,22294,0},
{194636,22022,0},
{194637,22295,0},
{194638,22097,0},
{194639,22132,0},
{194640,20999,0},
{194641,22766,0},
{194642,22478,0},
{194643,22516,0},
{194644,22541,0},
{194645,22411,0},
{194646,22578,0},
{194647,22577,0},
{194648,22700,0},
{194649,136420,0},
{194650,22770,0},
{194651,22775,0},
{194652,22790,0},
{194653,22810,0},
{194654,22818,0},
{194655,22882,0},
{194656,136872,0},
{194657,136938,0},
{194658,23020,0},
{194659,23067,0},
{194660,23079,0},
{194661,23000,0},
{194662,23142,0},
{194663,14062,0},
{194664,14076,0},
{194665,23304,0},
{194666,23358,0},
{194667,23358,0},
{194668,137672,0},
{194669,23491,0},
{194670,23512,0},
{194671,23527,0},
{194672,23539,0},
{194673,138008,0},
{194674,23551,0},
{194675,23558,0},
{194676,24403,0},
{194677,23586,0},
{194678,14209,0},
{194679,23648,0},
{194680,23662,0},
{194681,23744,0},
{194682,23693,0},
{194683,138724,0},
{194684,23875,0},
{194685,138726,0},
{194686,23918,0},
{194687,23915,0},
{194688,23932,0},
{194689,24033,0},
{194690,24034,0},
{194691,14383,0},
{194692,24061,0},
{194693,24104,0},
{194694,24125,0},
{194695,24169,0},
{194696,14434,0},
{194697,139651,0},
{194698,14460,0},
{194699,24240,0},
{194700,24243,0},
{194701,24246,0},
{194702,24266,0},
{194703,172946,0},
{194704,24318,0},
{194705,140081,0},
{194706,140081,0},
{194707,33281,0},
{194708,24354,0},
{194709,24354,0},
{194710,14535,0},
{194711,144056,0},
{194712,156122,0},
{194713,24418,0},
{194714,24427,0},
{194715,14563,0},
{194716,24474,0},
{194717,24525,0},
{194718,24535,0},
{194719,24569,0},
{194720,24705,0},
{194721,14650,0},
{194722,14620,0},
{194723,24724,0},
{194724,141012,0},
{194725,24775,0},
{194726,24904,0},
{194727,24908,0},
{194728,24910,0},
{194729,24908,0},
{194730,24954,0},
{194731,24974,0},
{194732,25010,0},
{194733,24996,0},
{194734,25007,0},
{194735,25054,0},
{194736,25074,0},
{194737,25078,0},
{194738,25104,0},
{194739,25115,0},
{194740,25181,0},
{194741,25265,0},
{194742,25300,0},
{194743,25424,0},
{194744,142092,0},
{194745,25405,0},
{194746,25340,0},
{194747,25448,0},
{194748,25475,0},
{194749,25572,0},
{194750,142321,0},
{194751,25634,0},
{194752,25541,0},
{194753,25513,0},
{194754,14894,0},
{194755,25705,0},
{194756,25726,0},
{194757,25757,0},
{194758,25719,0},
{194759,14956,0},
{194760,25935,0},
{194761,25964,0},
{194762,143370,0},
{194763,26083,0},
{194764,26360,0},
{194765,26185,0},
{194766,15129,0},
{194767,26257,0},
{194768,15112,0},
{194769,15076,0},
{194770,20882,0},
{194771,20885,0},
{194772,26368,0},
{194773,26268,0},
{194774,32941,0},
{194775,17369,0},
{194776,26391,0},
{194777,26395,0},
{194778,26401,0},
{194779,26462,0},
{194780,26451,0},
{194781,144323,0},
{194782,15177,0},
{194783,26618,0},
{194784,26501,0},
{194785,26706,0},
{194786,26757,0},
{194787,144493,0},
{194788,26766,0},
{194789,26655,0},
{194790,26900,0},
{194791,15261,0},
{194792,26946,0},
{194793,27043,0},
{194794,27114,0},
{194795,27304,0},
{194796,145059,0},
{194797,27355,0},
{194798,15384,0},
{194799,27425,0},
{194800,145575,0},
{194801,27476,0},
{194802,15438,0},
{194803,27506,0},
{194804,27551,0},
{194805,27578,0},
{194806,27579,0},
{194807,146061,0},
{194808,138507,0},
{194809,146170,0},
{194810,27726,0},
{194811,146620,0},
{194812,27839,0},
{194813,27853,0},
{194814,27751,0},
{194815,27926,0},
{194816,27966,0},
{194817,28023,0},
{194818,27969,0},
{194819,28009,0},
{194820,28024,0},
{194821,28037,0},
{194822,146718,0},
{194823,27956,0},
{194824,28207,0},
{194825,28270,0},
{194826,15667,0},
{194827,28363,0},
{194828,28359,0},
{194829,147153,0},
{194830,28153,0},
{194831,28526,0},
{194832,147294,0},
{194833,147342,0},
{194834,28614,0},
{194835,28729,0},
{194836,28702,0},
{194837,28699,0},
{194838,15766,0},
{194839,28746,0},
{194840,28797,0},
{194841,28791,0},
{194842,28845,0},
{194843,132389,0},
{194844,28997,0},
{194845,148067,0},
{194846,29084,0},
{194847,148395,0},
{194848,29224,0},
{194849,29237,0},
{194850,29264,0},
{194851,149000,0},
{194852,29312,0},
{194853,29333,0},
{194854,149301,0},
{194855,149524,0},
{194856,29562,0},
{194857,29579,0},
{194858,16044,0},
{194859,29605,0},
{194860,16056,0},
{194861,16056,0},
{194862,29767,0},
{194863,29788,0},
{194864,29809,0},
{194865,29829,0},
{194866,29898,0},
{194867,16155,0},
{194868,29988,0},
{194869,150582,0},
{194870,30014,0},
{194871,150674,0},
{194872,30064,0},
{194873,139679,0},
{194874,30224,0},
{194875,151457,0},
{194876,151480,0},
{194877,151620,0},
{194878,16380,0},
{194879,16392,0},
{194880,30452,0},
{194881,151795,0},
{194882,151794,0},
{194883,151833,0},
{194884,151859,0},
{194885,30494,0},
{194886,30495,0},
{194887,30495,0},
{194888,30538,0},
{194889,16441,0},
{194890,30603,0},
{194891,16454,0},
{194892,16534,0},
{194893,152605,0},
{194894,30798,0},
{194895,30860,0},
{194896,30924,0},
{194897,16611,0},
{194898,153126,0},
{194899,31062,0},
{194900,153242,0},
{194901,153285,0},
{194902,31119,0},
{194903,31211,0},
{194904,16687,0},
{194905,31296,0},
{194906,31306,0},
{194907,31311,0},
{194908,153980,0},
{194909,154279,0},
{194910,154279,0},
{194911,31470,0},
{194912,16898,0},
{194913,154539,0},
{194914,31686,0},
{194915,31689,0},
{194916,16935,0},
{194917,154752,0},
{194918,31954,0},
{194919,17056,0},
{194920,31976,0},
{194921,31971,0},
{194922,32000,0},
{194923,155526,0},
{194924,32099,0},
{194925,17153,0},
{194926,32199,0},
{194927,32258,0},
{194928,32325,0},
{194929,17204,0},
{194930,156200,0},
{194931,156231,0},
{194932,17241,0},
{194933,156377,0},
{194934,32634,0},
{194935,156478,0},
{194936,32661,0},
{194937,32762,0},
{194938,32773,0},
{194939,156890,0},
{194940,156963,0},
{194941,32864,0},
{194942,157096,0},
{194943,32880,0},
{194944,144223,0},
{194945,17365,0},
{194946,32946,0},
{194947,33027,0},
{194948,17419,0},
{194949,33086,0},
{194950,23221,0},
{194951,157607,0},
{194952,157621,0},
{194953,144275,0},
{194954,144284,0},
{194955,33281,0},
{194956,33284,0},
{194957,36766,0},
{194958,17515,0},
{194959,33425,0},
{194960,33419,0},
{194961,33437,0},
{194962,21171,0},
{194963,33457,0},
{194964,33459,0},
{194965,33469,0},
{194966,33510,0},
{194967,158524,0},
{194968,33509,0},
{194969,33565,0},
{194970,33635,0},
{194971,33709,0},
{194972,33571,0},
{194973,33725,0},
{194974,33767,0},
{194975,33879,0},
{194976,33619,0},
{194977,33738,0},
{194978,33740,0},
{194979,33756,0},
{194980,158774,0},
{194981,159083,0},
{194982,158933,0},
{194983,17707,0},
{194984,34033,0},
{194985,34035,0},
{194986,34070,0},
{194987,160714,0},
{194988,34148,0},
{194989,159532,0},
{194990,17757,0},
{194991,17761,0},
{194992,159665,0},
{194993,159954,0},
{194994,17771,0},
{194995,34384,0},
{194996,34396,0},
{194997,34407,0},
{194998,34409,0},
{194999,34473,0},
{195000,34440,0},
{195001,34574,0},
{195002,34530,0},
{195003,34681,0},
{195004,34600,0},
{195005,34667,0},
{195006,34694,0},
{195007,17879,0},
{195008,34785,0},
{195009,34817,0},
{195010,17913,0},
{195011,34912,0},
{195012,34915,0},
{195013,161383,0},
{195014,35031,0},
{195015,35038,0},
{195016,17973,0},
{195017,35066,0},
{195018,13499,0},
{195019,161966,0},
{195020,162150,0},
{195021,18110,0},
{195022,18119,0},
{195023,35488,0},
{195024,35565,0},
{195025,35722,0},
{195026,35925,0},
{195027,162984,0},
{195028,36011,0},
{195029,36033,0},
{195030,36123,0},
{195031,36215,0},
{195032,163631,0},
{195033,133124,0},
{195034,36299,0},
{195035,36284,0},
{195036,36336,0},
{195037,133342,0},
{195038,36564,0},
{195039,36664,0},
{195040,165330,0},
{195041,165357,0},
{195042,37012,0},
{195043,37105,0},
{195044,37137,0},
{195045,165678,0},
{195046,37147,0},
{195047,37432,0},
{195048,37591,0},
{195049,37592,0},
{195050,37500,0},
{195051,37881,0},
{195052,37909,0},
{195053,166906,0},
{195054,38283,0},
{195055,18837,0},
{195056,38327,0},
{195057,167287,0},
{195058,18918,0},
{195059,38595,0},
{195060,23986,0},
{195061,38691,0},
{195062,168261,0},
{195063,168474,0},
{195064,19054,0},
{195065,19062,0},
{195066,38880,0},
{195067,168970,0},
{195068,19122,0},
{195069,169110,0},
{195070,38923,0},
{195071,38923,0},
{195072,38953,0},
{195073,169398,0},
{195074,39138,0},
{195075,19251,0},
{195076,39209,0},
{195077,39335,0},
{195078,39362,0},
{195079,39422,0},
{195080,19406,0},
{195081,170800,0},
{195082,39698,0},
{195083,40000,0},
{195084,40189,0},
{195085,19662,0},
{195086,19693,0},
{195087,40295,0},
{195088,172238,0},
{195089,19704,0},
{195090,172293,0},
{195091,172558,0},
{195092,172689,0},
{195093,40635,0},
{195094,19798,0},
{195095,40697,0},
{195096,40702,0},
{195097,40709,0},
{195098,40719,0},
{195099,40726,0},
{195100,40763,0},
{195101,173568,0},
};
static const unsigned t_excl[][1] = {
{832},
{833},
{835},
{836},
{884},
{894},
{903},
{2392},
{2393},
{2394},
{2395},
{2396},
{2397},
{2398},
{2399},
{2524},
{2525},
{2527},
{2611},
{2614},
{2649},
{2650},
{2651},
{2654},
{2908},
{2909},
{3907},
{3917},
{3922},
{3927},
{3932},
{3945},
{3955},
{3957},
{3958},
{3960},
{3969},
{3987},
{3997},
{4002},
{4007},
{4012},
{4025},
{8049},
{8051},
{8053},
{8055},
{8057},
{8059},
{8061},
{8123},
{8126},
{8137},
{8139},
{8147},
{8155},
{8163},
{8171},
{8174},
{8175},
{8185},
{8187},
{8189},
{8192},
{8193},
{8486},
{8490},
{8491},
{9001},
{9002},
{10972},
{63744},
{63745},
{63746},
{63747},
{63748},
{63749},
{63750},
{63751},
{63752},
{63753},
{63754},
{63755},
{63756},
{63757},
{63758},
{63759},
{63760},
{63761},
{63762},
{63763},
{63764},
{63765},
{63766},
{63767},
{63768},
{63769},
{63770},
{63771},
{63772},
{63773},
{63774},
{63775},
{63776},
{63777},
{63778},
{63779},
{63780},
{63781},
{63782},
{63783},
{63784},
{63785},
{63786},
{63787},
{63788},
{63789},
{63790},
{63791},
{63792},
{63793},
{63794},
{63795},
{63796},
{63797},
{63798},
{63799},
{63800},
{63801},
{63802},
{63803},
{63804},
{63805},
{63806},
{63807},
{63808},
{63809},
{63810},
{63811},
{63812},
{63813},
{63814},
{63815},
{63816},
{63817},
{63818},
{63819},
{63820},
{63821},
{63822},
{63823},
{63824},
{63825},
{63826},
{63827},
{63828},
{63829},
{63830},
{63831},
{63832},
{63833},
{63834},
{63835},
{63836},
{63837},
{63838},
{63839},
{63840},
{63841},
{63842},
{63843},
{63844},
{63845},
{63846},
{63847},
{63848},
{63849},
{63850},
{63851},
{63852},
{63853},
{63854},
{63855},
{63856},
{63857},
{63858},
{63859},
{63860},
{63861},
{63862},
{63863},
{63864},
{63865},
{63866},
{63867},
{63868},
{63869},
{63870},
{63871},
{63872},
{63873},
{63874},
{63875},
{63876},
{63877},
{63878},
{63879},
{63880},
{63881},
{63882},
{63883},
{63884},
{63885},
{63886},
{63887},
{63888},
{63889},
{63890},
{63891},
{63892},
{63893},
{63894},
{63895},
{63896},
{63897},
{63898},
{63899},
{63900},
{63901},
{63902},
{63903},
{63904},
{63905},
{63906},
{63907},
{63908},
{63909},
{63910},
{63911},
{63912},
{63913},
{63914},
{63915},
{63916},
{63917},
{63918},
{63919},
{63920},
{63921},
{63922},
{63923},
{63924},
{63925},
{63926},
{63927},
{63928},
{63929},
{63930},
{63931},
{63932},
{63933},
{63934},
{63935},
{63936},
{63937},
{63938},
{63939},
{63940},
{63941},
{63942},
{63943},
{63944},
{63945},
{63946},
{63947},
{63948},
{63949},
{63950},
{63951},
{63952},
{63953},
{63954},
{63955},
{63956},
{63957},
{63958},
{63959},
{63960},
{63961},
{63962},
{63963},
{63964},
{63965},
{63966},
{63967},
{63968},
{63969},
{63970},
{63971},
{63972},
{63973},
{63974},
{63975},
{63976},
{63977},
{63978},
{63979},
{63980},
{63981},
{63982},
{63983},
{63984},
{63985},
{63986},
{63987},
{63988},
{63989},
{63990},
{63991},
{63992},
{63993},
{63994},
{63995},
{63996},
{63997},
{63998},
{63999},
{64000},
{64001},
{64002},
{64003},
{64004},
{64005},
{64006},
{64007},
{64008},
{64009},
{64010},
{64011},
{64012},
{64013},
{64016},
{64018},
{64021},
{64022},
{64023},
{64024},
{64025},
{64026},
{64027},
{64028},
{64029},
{64030},
{64032},
{64034},
{64037},
{64038},
{64042},
{64043},
{64044},
{64045},
{64046},
{64047},
{64048},
{64049},
{64050},
{64051},
{64052},
{64053},
{64054},
{64055},
{64056},
{64057},
{64058},
{64059},
{64060},
{64061},
{64062},
{64063},
{64064},
{64065},
{64066},
{64067},
{64068},
{64069},
{64070},
{64071},
{64072},
{64073},
{64074},
{64075},
{64076},
{64077},
{64078},
{64079},
{64080},
{64081},
{64082},
{64083},
{64084},
{64085},
{64086},
{64087},
{64088},
{64089},
{64090},
{64091},
{64092},
{64093},
{64094},
{64095},
{64096},
{64097},
{64098},
{64099},
{64100},
{64101},
{64102},
{64103},
{64104},
{64105},
{64106},
{64107},
{64108},
{64109},
{64112},
{64113},
{64114},
{64115},
{64116},
{64117},
{64118},
{64119},
{64120},
{64121},
{64122},
{64123},
{64124},
{64125},
{64126},
{64127},
{64128},
{64129},
{64130},
{64131},
{64132},
{64133},
{64134},
{64135},
{64136},
{64137},
{64138},
{64139},
{64140},
{64141},
{64142},
{64143},
{64144},
{64145},
{64146},
{64147},
{64148},
{64149},
{64150},
{64151},
{64152},
{64153},
{64154},
{64155},
{64156},
{64157},
{64158},
{64159},
{64160},
{64161},
{64162},
{64163},
{64164},
{64165},
{64166},
{64167},
{64168},
{64169},
{64170},
{64171},
{64172},
{64173},
{64174},
{64175},
{64176},
{64177},
{64178},
{64179},
{64180},
{64181},
{64182},
{64183},
{64184},
{64185},
{64186},
{64187},
{64188},
{64189},
{64190},
{64191},
{64192},
{64193},
{64194},
{64195},
{64196},
{64197},
{64198},
{64199},
{64200},
{64201},
{64202},
{64203},
{64204},
{64205},
{64206},
{64207},
{64208},
{64209},
{64210},
{64211},
{64212},
{64213},
{64214},
{64215},
{64216},
{64217},
{64285},
{64287},
{64298},
{64299},
{64300},
{64301},
{64302},
{64303},
{64304},
{64305},
{64306},
{64307},
{64308},
{64309},
{64310},
{64312},
{64313},
{64314},
{64315},
{64316},
{64318},
{64320},
{64321},
{64323},
{64324},
{64326},
{64327},
{64328},
{64329},
{64330},
{64331},
{64332},
{64333},
{64334},
{119134},
{119135},
{119136},
{119137},
{119138},
{119139},
{119140},
{119227},
{119228},
{119229},
{119230},
{119231},
{119232},
{194560},
{194561},
{194562},
{194563},
{194564},
{194565},
{194566},
{194567},
{194568},
{194569},
{194570},
{194571},
{194572},
{194573},
{194574},
{194575},
{194576},
{194577},
{194578},
{194579},
{194580},
{194581},
{194582},
{194583},
{194584},
{194585},
{194586},
{194587},
{194588},
{194589},
{194590},
{194591},
{194592},
{194593},
{194594},
{194595},
{194596},
{194597},
{194598},
{194599},
{194600},
{194601},
{194602},
{194603},
{194604},
{194605},
{194606},
{194607},
{194608},
{194609},
{194610},
{194611},
{194612},
{194613},
{194614},
{194615},
{194616},
{194617},
{194618},
{194619},
{194620},
{194621},
{194622},
{194623},
{194624},
{194625},
{194626},
{194627},
{194628},
{194629},
{194630},
{194631},
{194632},
{194633},
{194634},
{194635},
{194636},
{194637},
{194638},
{194639},
{194640},
{194641},
{194642},
{194643},
{194644},
{194645},
{194646},
{194647},
{194648},
{194649},
{194650},
{194651},
{194652},
{194653},
{194654},
{194655},
{194656},
{194657},
{194658},
{194659},
{194660},
{194661},
{194662},
{194663},
{194664},
{194665},
{194666},
{194667},
{194668},
{194669},
{194670},
{194671},
{194672},
{194673},
{194674},
{194675},
{194676},
{194677},
{194678},
{194679},
{194680},
{194681},
{194682},
{194683},
{194684},
{194685},
{194686},
{194687},
{194688},
{194689},
{194690},
{194691},
{194692},
{194693},
{194694},
{194695},
{194696},
{194697},
{194698},
{194699},
{194700},
{194701},
{194702},
{194703},
{194704},
{194705},
{194706},
{194707},
{194708},
{194709},
{194710},
{194711},
{194712},
{194713},
{194714},
{194715},
{194716},
{194717},
{194718},
{194719},
{194720},
{194721},
{194722},
{194723},
{194724},
{194725},
{194726},
{194727},
{194728},
{194729},
{194730},
{194731},
{194732},
{194733},
{194734},
{194735},
{194736},
{194737},
{194738},
{194739},
{194740},
{194741},
{194742},
{194743},
{194744},
{194745},
{194746},
{194747},
{194748},
{194749},
{194750},
{194751},
{194752},
{194753},
{194754},
{194755},
{194756},
{194757},
{194758},
{194759},
{194760},
{194761},
{194762},
{194763},
{194764},
{194765},
{194766},
{194767},
{194768},
{194769},
{194770},
{194771},
{194772},
{194773},
{194774},
{194775},
{194776},
{194777},
{194778},
{194779},
{194780},
{194781},
{194782},
{194783},
{194784},
{194785},
{194786},
{194787},
{194788},
{194789},
{194790},
{194791},
{194792},
{194793},
{194794},
{194795},
{194796},
{194797},
{194798},
{194799},
{194800},
{194801},
{194802},
{194803},
{194804},
{194805},
{194806},
{194807},
{194808},
{194809},
{194810},
{194811},
{194812},
{194813},
{194814},
{194815},
{194816},
{194817},
{194818},
{194819},
{194820},
{194821},
{194822},
{194823},
{194824},
{194825},
{194826},
{194827},
{194828},
{194829},
{194830},
{194831},
{194832},
{194833},
{194834},
{194835},
{194836},
{194837},
{194838},
{194839},
{194840},
{194841},
{194842},
{194843},
{194844},
{194845},
{194846},
{194847},
{194848},
{194849},
{194850},
{194851},
{194852},
{194853},
{194854},
{194855},
{194856},
{194857},
{194858},
{194859},
{194860},
{194861},
{194862},
{194863},
{194864},
{194865},
{194866},
{194867},
{194868},
{194869},
{194870},
{194871},
{194872},
{194873},
{194874},
{194875},
{194876},
{194877},
{194878},
{194879},
{194880},
{194881},
{194882},
{194883},
{194884},
{194885},
{194886},
{194887},
{194888},
{194889},
{194890},
{194891},
{194892},
{194893},
{194894},
{194895},
{194896},
{194897},
{194898},
{194899},
{194900},
{194901},
{194902},
{194903},
{194904},
{194905},
{194906},
{194907},
{194908},
{194909},
{194910},
{194911},
{194912},
{194913},
{194914},
{194915},
{194916},
{194917},
{194918},
{194919},
{194920},
{194921},
{194922},
{194923},
{194924},
{194925},
{194926},
{194927},
{194928},
{194929},
{194930},
{194931},
{194932},
{194933},
{194934},
{194935},
{194936},
{194937},
{194938},
{194939},
{194940},
{194941},
{194942},
{194943},
{194944},
{194945},
{194946},
{194947},
{194948},
{194949},
{194950},
{194951},
{194952},
{194953},
{194954},
{194955},
{194956},
{194957},
{194958},
{194959},
{194960},
{194961},
{194962},
{194963},
{194964},
{194965},
{194966},
{194967},
{194968},
{194969},
{194970},
{194971},
{194972},
{194973},
{194974},
{194975},
{194976},
{194977},
{194978},
{194979},
{194980},
{194981},
{194982},
{194983},
{194984},
{194985},
{194986},
{194987},
{194988},
{194989},
{194990},
{194991},
{194992},
{194993},
{194994},
{194995},
{194996},
{194997},
{194998},
{194999},
{195000},
{195001},
{195002},
{195003},
{195004},
{195005},
{195006},
{195007},
{195008},
{195009},
{195010},
{195011},
{195012},
{195013},
{195014},
{195015},
{195016},
{195017},
{195018},
{195019},
{195020},
{195021},
{195022},
{195023},
{195024},
{195025},
{195026},
{195027},
{195028},
{195029},
{195030},
{195031},
{195032},
{195033},
{195034},
{195035},
{195036},
{195037},
{195038},
{195039},
{195040},
{195041},
{195042},
{195043},
{195044},
{195045},
{195046},
{195047},
{195048},
{195049},
{195050},
{195051},
{195052},
{195053},
{195054},
{195055},
{195056},
{195057},
{195058},
{195059},
{195060},
{195061},
{195062},
{195063},
{195064},
{195065},
{195066},
{195067},
{195068},
{195069},
{195070},
{195071},
{195072},
{195073},
{195074},
{195075},
{195076},
{195077},
{195078},
{195079},
{195080},
{195081},
{195082},
{195083},
{195084},
{195085},
{195086},
{195087},
{195088},
{195089},
{195090},
{195091},
{195092},
{195093},
{195094},
{195095},
{195096},
{195097},
{195098},
{195099},
{195100},
{195101},
};
static const unsigned t_idna[][5] = {
{0,44,5,0,0},
{45,46,0,0,0},
{47,47,5,0,0},
{48,57,0,0,0},
{58,64,5,0,0},
{65,65,1,0,1},
{66,66,1,1,1},
{67,67,1,2,1},
{68,68,1,3,1},
{69,69,1,4,1},
{70,70,1,5,1},
{71,71,1,6,1},
{72,72,1,7,1},
{73,73,1,8,1},
{74,74,1,9,1},
{75,75,1,10,1},
{76,76,1,11,1},
{77,77,1,12,1},
{78,78,1,13,1},
{79,79,1,14,1},
{80,80,1,15,1},
{81,81,1,16,1},
{82,82,1,17,1},
{83,83,1,18,1},
{84,84,1,19,1},
{85,85,1,20,1},
{86,86,1,21,1},
{87,87,1,22,1},
{88,88,1,23,1},
{89,89,1,24,1},
{90,90,1,25,1},
{91,96,5,26,0},
{97,122,0,26,0},
{123,127,5,26,0},
{128,159,4,26,0},
{160,160,6,26,1},
{161,167,0,27,0},
{168,168,6,27,2},
{169,169,0,29,0},
{170,170,1,29,1},
{171,172,0,30,0},
{173,173,2,30,0},
{174,174,0,30,0},
{175,175,6,30,2},
{176,177,0,32,0},
{178,178,1,32,1},
{179,179,1,33,1},
{180,180,6,34,2},
{181,181,1,36,1},
{182,182,0,37,0},
{183,183,0,37,0},
{184,184,6,37,2},
{185,185,1,39,1},
{186,186,1,40,1},
{187,187,0,41,0},
{188,188,1,41,3},
{189,189,1,44,3},
{190,190,1,47,3},
{191,191,0,50,0},
{192,192,1,50,1},
{193,193,1,51,1},
{194,194,1,52,1},
{195,195,1,53,1},
{196,196,1,54,1},
{197,197,1,55,1},
{198,198,1,56,1},
{199,199,1,57,1},
{200,200,1,58,1},
{201,201,1,59,1},
{202,202,1,60,1},
{203,203,1,61,1},
{204,204,1,62,1},
{205,205,1,63,1},
{206,206,1,64,1},
{207,207,1,65,1},
{208,208,1,66,1},
{209,209,1,67,1},
{210,210,1,68,1},
{211,211,1,69,1},
{212,212,1,70,1},
{213,213,1,71,1},
{214,214,1,72,1},
{215,215,0,73,0},
{216,216,1,73,1},
{217,217,1,74,1},
{218,218,1,75,1},
{219,219,1,76,1},
{220,220,1,77,1},
{221,221,1,78,1},
{222,222,1,79,1},
{223,223,3,80,2},
{224,246,0,82,0},
{247,247,0,82,0},
{248,255,0,82,0},
{256,256,1,82,1},
{257,257,0,83,0},
{258,258,1,83,1},
{259,259,0,84,0},
{260,260,1,84,1},
{261,261,0,85,0},
{262,262,1,85,1},
{263,263,0,86,0},
{264,264,1,86,1},
{265,265,0,87,0},
{266,266,1,87,1},
{267,267,0,88,0},
{268,268,1,88,1},
{269,269,0,89,0},
{270,270,1,89,1},
{271,271,0,90,0},
{272,272,1,90,1},
{273,273,0,91,0},
{274,274,1,91,1},
{275,275,0,92,0},
{276,276,1,92,1},
{277,277,0,93,0},
{278,278,1,93,1},
{279,279,0,94,0},
{280,280,1,94,1},
{281,281,0,95,0},
{282,282,1,95,1},
{283,283,0,96,0},
{284,284,1,96,1},
{285,285,0,97,0},
{286,286,1,97,1},
{287,287,0,98,0},
{288,288,1,98,1},
{289,289,0,99,0},
{290,290,1,99,1},
{291,291,0,100,0},
{292,292,1,100,1},
{293,293,0,101,0},
{294,294,1,101,1},
{295,295,0,102,0},
{296,296,1,102,1},
{297,297,0,103,0},
{298,298,1,103,1},
{299,299,0,104,0},
{300,300,1,104,1},
{301,301,0,105,0},
{302,302,1,105,1},
{303,303,0,106,0},
{304,304,1,106,2},
{305,305,0,108,0},
{306,307,1,108,2},
{308,308,1,110,1},
{309,309,0,111,0},
{310,310,1,111,1},
{311,312,0,112,0},
{313,313,1,112,1},
{314,314,0,113,0},
{315,315,1,113,1},
{316,316,0,114,0},
{317,317,1,114,1},
{318,318,0,115,0},
{319,320,1,115,2},
{321,321,1,117,1},
{322,322,0,118,0},
{323,323,1,118,1},
{324,324,0,119,0},
{325,325,1,119,1},
{326,326,0,120,0},
{327,327,1,120,1},
{328,328,0,121,0},
{329,329,1,121,2},
{330,330,1,123,1},
{331,331,0,124,0},
{332,332,1,124,1},
{333,333,0,125,0},
{334,334,1,125,1},
{335,335,0,126,0},
{336,336,1,126,1},
{337,337,0,127,0},
{338,338,1,127,1},
{339,339,0,128,0},
{340,340,1,128,1},
{341,341,0,129,0},
{342,342,1,129,1},
{343,343,0,130,0},
{344,344,1,130,1},
{345,345,0,131,0},
{346,346,1,131,1},
{347,347,0,132,0},
{348,348,1,132,1},
{349,349,0,133,0},
{350,350,1,133,1},
{351,351,0,134,0},
{352,352,1,134,1},
{353,353,0,135,0},
{354,354,1,135,1},
{355,355,0,136,0},
{356,356,1,136,1},
{357,357,0,137,0},
{358,358,1,137,1},
{359,359,0,138,0},
{360,360,1,138,1},
{361,361,0,139,0},
{362,362,1,139,1},
{363,363,0,140,0},
{364,364,1,140,1},
{365,365,0,141,0},
{366,366,1,141,1},
{367,367,0,142,0},
{368,368,1,142,1},
{369,369,0,143,0},
{370,370,1,143,1},
{371,371,0,144,0},
{372,372,1,144,1},
{373,373,0,145,0},
{374,374,1,145,1},
{375,375,0,146,0},
{376,376,1,146,1},
{377,377,1,147,1},
{378,378,0,148,0},
{379,379,1,148,1},
{380,380,0,149,0},
{381,381,1,149,1},
{382,382,0,150,0},
{383,383,1,150,1},
{384,384,0,151,0},
{385,385,1,151,1},
{386,386,1,152,1},
{387,387,0,153,0},
{388,388,1,153,1},
{389,389,0,154,0},
{390,390,1,154,1},
{391,391,1,155,1},
{392,392,0,156,0},
{393,393,1,156,1},
{394,394,1,157,1},
{395,395,1,158,1},
{396,397,0,159,0},
{398,398,1,159,1},
{399,399,1,160,1},
{400,400,1,161,1},
{401,401,1,162,1},
{402,402,0,163,0},
{403,403,1,163,1},
{404,404,1,164,1},
{405,405,0,165,0},
{406,406,1,165,1},
{407,407,1,166,1},
{408,408,1,167,1},
{409,411,0,168,0},
{412,412,1,168,1},
{413,413,1,169,1},
{414,414,0,170,0},
{415,415,1,170,1},
{416,416,1,171,1},
{417,417,0,172,0},
{418,418,1,172,1},
{419,419,0,173,0},
{420,420,1,173,1},
{421,421,0,174,0},
{422,422,1,174,1},
{423,423,1,175,1},
{424,424,0,176,0},
{425,425,1,176,1},
{426,427,0,177,0},
{428,428,1,177,1},
{429,429,0,178,0},
{430,430,1,178,1},
{431,431,1,179,1},
{432,432,0,180,0},
{433,433,1,180,1},
{434,434,1,181,1},
{435,435,1,182,1},
{436,436,0,183,0},
{437,437,1,183,1},
{438,438,0,184,0},
{439,439,1,184,1},
{440,440,1,185,1},
{441,443,0,186,0},
{444,444,1,186,1},
{445,451,0,187,0},
{452,454,1,187,2},
{455,457,1,189,2},
{458,460,1,191,2},
{461,461,1,193,1},
{462,462,0,194,0},
{463,463,1,194,1},
{464,464,0,195,0},
{465,465,1,195,1},
{466,466,0,196,0},
{467,467,1,196,1},
{468,468,0,197,0},
{469,469,1,197,1},
{470,470,0,198,0},
{471,471,1,198,1},
{472,472,0,199,0},
{473,473,1,199,1},
{474,474,0,200,0},
{475,475,1,200,1},
{476,477,0,201,0},
{478,478,1,201,1},
{479,479,0,202,0},
{480,480,1,202,1},
{481,481,0,203,0},
{482,482,1,203,1},
{483,483,0,204,0},
{484,484,1,204,1},
{485,485,0,205,0},
{486,486,1,205,1},
{487,487,0,206,0},
{488,488,1,206,1},
{489,489,0,207,0},
{490,490,1,207,1},
{491,491,0,208,0},
{492,492,1,208,1},
{493,493,0,209,0},
{494,494,1,209,1},
{495,496,0,210,0},
{497,499,1,210,2},
{500,500,1,212,1},
{501,501,0,213,0},
{502,502,1,213,1},
{503,503,1,214,1},
{504,504,1,215,1},
{505,505,0,216,0},
{506,506,1,216,1},
{507,507,0,217,0},
{508,508,1,217,1},
{509,509,0,218,0},
{510,510,1,218,1},
{511,511,0,219,0},
{512,512,1,219,1},
{513,513,0,220,0},
{514,514,1,220,1},
{515,515,0,221,0},
{516,516,1,221,1},
{517,517,0,222,0},
{518,518,1,222,1},
{519,519,0,223,0},
{520,520,1,223,1},
{521,521,0,224,0},
{522,522,1,224,1},
{523,523,0,225,0},
{524,524,1,225,1},
{525,525,0,226,0},
{526,526,1,226,1},
{527,527,0,227,0},
{528,528,1,227,1},
{529,529,0,228,0},
{530,530,1,228,1},
{531,531,0,229,0},
{532,532,1,229,1},
{533,533,0,230,0},
{534,534,1,230,1},
{535,535,0,231,0},
{536,536,1,231,1},
{537,537,0,232,0},
{538,538,1,232,1},
{539,539,0,233,0},
{540,540,1,233,1},
{541,541,0,234,0},
{542,542,1,234,1},
{543,543,0,235,0},
{544,544,1,235,1},
{545,545,0,236,0},
{546,546,1,236,1},
{547,547,0,237,0},
{548,548,1,237,1},
{549,549,0,238,0},
{550,550,1,238,1},
{551,551,0,239,0},
{552,552,1,239,1},
{553,553,0,240,0},
{554,554,1,240,1},
{555,555,0,241,0},
{556,556,1,241,1},
{557,557,0,242,0},
{558,558,1,242,1},
{559,559,0,243,0},
{560,560,1,243,1},
{561,561,0,244,0},
{562,562,1,244,1},
{563,563,0,245,0},
{564,566,0,245,0},
{567,569,0,245,0},
{570,570,1,245,1},
{571,571,1,246,1},
{572,572,0,247,0},
{573,573,1,247,1},
{574,574,1,248,1},
{575,576,0,249,0},
{577,577,1,249,1},
{578,578,0,250,0},
{579,579,1,250,1},
{580,580,1,251,1},
{581,581,1,252,1},
{582,582,1,253,1},
{583,583,0,254,0},
{584,584,1,254,1},
{585,585,0,255,0},
{586,586,1,255,1},
{587,587,0,256,0},
{588,588,1,256,1},
{589,589,0,257,0},
{590,590,1,257,1},
{591,591,0,258,0},
{592,680,0,258,0},
{681,685,0,258,0},
{686,687,0,258,0},
{688,688,1,258,1},
{689,689,1,259,1},
{690,690,1,260,1},
{691,691,1,261,1},
{692,692,1,262,1},
{693,693,1,263,1},
{694,694,1,264,1},
{695,695,1,265,1},
{696,696,1,266,1},
{697,705,0,267,0},
{706,709,0,267,0},
{710,721,0,267,0},
{722,727,0,267,0},
{728,728,6,267,2},
{729,729,6,269,2},
{730,730,6,271,2},
{731,731,6,273,2},
{732,732,6,275,2},
{733,733,6,277,2},
{734,734,0,279,0},
{735,735,0,279,0},
{736,736,1,279,1},
{737,737,1,280,1},
{738,738,1,281,1},
{739,739,1,282,1},
{740,740,1,283,1},
{741,745,0,284,0},
{746,747,0,284,0},
{748,748,0,284,0},
{749,749,0,284,0},
{750,750,0,284,0},
{751,767,0,284,0},
{768,831,0,284,0},
{832,832,1,284,1},
{833,833,1,285,1},
{834,834,0,286,0},
{835,835,1,286,1},
{836,836,1,287,2},
{837,837,1,289,1},
{838,846,0,290,0},
{847,847,2,290,0},
{848,855,0,290,0},
{856,860,0,290,0},
{861,863,0,290,0},
{864,865,0,290,0},
{866,866,0,290,0},
{867,879,0,290,0},
{880,880,1,290,1},
{881,881,0,291,0},
{882,882,1,291,1},
{883,883,0,292,0},
{884,884,1,292,1},
{885,885,0,293,0},
{886,886,1,293,1},
{887,887,0,294,0},
{888,889,4,294,0},
{890,890,6,294,2},
{891,893,0,296,0},
{894,894,6,296,1},
{895,895,1,297,1},
{896,899,4,298,0},
{900,900,6,298,2},
{901,901,6,300,3},
{902,902,1,303,1},
{903,903,1,304,1},
{904,904,1,305,1},
{905,905,1,306,1},
{906,906,1,307,1},
{907,907,4,308,0},
{908,908,1,308,1},
{909,909,4,309,0},
{910,910,1,309,1},
{911,911,1,310,1},
{912,912,0,311,0},
{913,913,1,311,1},
{914,914,1,312,1},
{915,915,1,313,1},
{916,916,1,314,1},
{917,917,1,315,1},
{918,918,1,316,1},
{919,919,1,317,1},
{920,920,1,318,1},
{921,921,1,319,1},
{922,922,1,320,1},
{923,923,1,321,1},
{924,924,1,322,1},
{925,925,1,323,1},
{926,926,1,324,1},
{927,927,1,325,1},
{928,928,1,326,1},
{929,929,1,327,1},
{930,930,4,328,0},
{931,931,1,328,1},
{932,932,1,329,1},
{933,933,1,330,1},
{934,934,1,331,1},
{935,935,1,332,1},
{936,936,1,333,1},
{937,937,1,334,1},
{938,938,1,335,1},
{939,939,1,336,1},
{940,961,0,337,0},
{962,962,3,337,1},
{963,974,0,338,0},
{975,975,1,338,1},
{976,976,1,339,1},
{977,977,1,340,1},
{978,978,1,341,1},
{979,979,1,342,1},
{980,980,1,343,1},
{981,981,1,344,1},
{982,982,1,345,1},
{983,983,0,346,0},
{984,984,1,346,1},
{985,985,0,347,0},
{986,986,1,347,1},
{987,987,0,348,0},
{988,988,1,348,1},
{989,989,0,349,0},
{990,990,1,349,1},
{991,991,0,350,0},
{992,992,1,350,1},
{993,993,0,351,0},
{994,994,1,351,1},
{995,995,0,352,0},
{996,996,1,352,1},
{997,997,0,353,0},
{998,998,1,353,1},
{999,999,0,354,0},
{1000,1000,1,354,1},
{1001,1001,0,355,0},
{1002,1002,1,355,1},
{1003,1003,0,356,0},
{1004,1004,1,356,1},
{1005,1005,0,357,0},
{1006,1006,1,357,1},
{1007,1007,0,358,0},
{1008,1008,1,358,1},
{1009,1009,1,359,1},
{1010,1010,1,360,1},
{1011,1011,0,361,0},
{1012,1012,1,361,1},
{1013,1013,1,362,1},
{1014,1014,0,363,0},
{1015,1015,1,363,1},
{1016,1016,0,364,0},
{1017,1017,1,364,1},
{1018,1018,1,365,1},
{1019,1019,0,366,0},
{1020,1020,0,366,0},
{1021,1021,1,366,1},
{1022,1022,1,367,1},
{1023,1023,1,368,1},
{1024,1024,1,369,1},
{1025,1025,1,370,1},
{1026,1026,1,371,1},
{1027,1027,1,372,1},
{1028,1028,1,373,1},
{1029,1029,1,374,1},
{1030,1030,1,375,1},
{1031,1031,1,376,1},
{1032,1032,1,377,1},
{1033,1033,1,378,1},
{1034,1034,1,379,1},
{1035,1035,1,380,1},
{1036,1036,1,381,1},
{1037,1037,1,382,1},
{1038,1038,1,383,1},
{1039,1039,1,384,1},
{1040,1040,1,385,1},
{1041,1041,1,386,1},
{1042,1042,1,387,1},
{1043,1043,1,388,1},
{1044,1044,1,389,1},
{1045,1045,1,390,1},
{1046,1046,1,391,1},
{1047,1047,1,392,1},
{1048,1048,1,393,1},
{1049,1049,1,394,1},
{1050,1050,1,395,1},
{1051,1051,1,396,1},
{1052,1052,1,397,1},
{1053,1053,1,398,1},
{1054,1054,1,399,1},
{1055,1055,1,400,1},
{1056,1056,1,401,1},
{1057,1057,1,402,1},
{1058,1058,1,403,1},
{1059,1059,1,404,1},
{1060,1060,1,405,1},
{1061,1061,1,406,1},
{1062,1062,1,407,1},
{1063,1063,1,408,1},
{1064,1064,1,409,1},
{1065,1065,1,410,1},
{1066,1066,1,411,1},
{1067,1067,1,412,1},
{1068,1068,1,413,1},
{1069,1069,1,414,1},
{1070,1070,1,415,1},
{1071,1071,1,416,1},
{1072,1103,0,417,0},
{1104,1104,0,417,0},
{1105,1116,0,417,0},
{1117,1117,0,417,0},
{1118,1119,0,417,0},
{1120,1120,1,417,1},
{1121,1121,0,418,0},
{1122,1122,1,418,1},
{1123,1123,0,419,0},
{1124,1124,1,419,1},
{1125,1125,0,420,0},
{1126,1126,1,420,1},
{1127,1127,0,421,0},
{1128,1128,1,421,1},
{1129,1129,0,422,0},
{1130,1130,1,422,1},
{1131,1131,0,423,0},
{1132,1132,1,423,1},
{1133,1133,0,424,0},
{1134,1134,1,424,1},
{1135,1135,0,425,0},
{1136,1136,1,425,1},
{1137,1137,0,426,0},
{1138,1138,1,426,1},
{1139,1139,0,427,0},
{1140,1140,1,427,1},
{1141,1141,0,428,0},
{1142,1142,1,428,1},
{1143,1143,0,429,0},
{1144,1144,1,429,1},
{1145,1145,0,430,0},
{1146,1146,1,430,1},
{1147,1147,0,431,0},
{1148,1148,1,431,1},
{1149,1149,0,432,0},
{1150,1150,1,432,1},
{1151,1151,0,433,0},
{1152,1152,1,433,1},
{1153,1153,0,434,0},
{1154,1154,0,434,0},
{1155,1158,0,434,0},
{1159,1159,0,434,0},
{1160,1161,0,434,0},
{1162,1162,1,434,1},
{1163,1163,0,435,0},
{1164,1164,1,435,1},
{1165,1165,0,436,0},
{1166,1166,1,436,1},
{1167,1167,0,437,0},
{1168,1168,1,437,1},
{1169,1169,0,438,0},
{1170,1170,1,438,1},
{1171,1171,0,439,0},
{1172,1172,1,439,1},
{1173,1173,0,440,0},
{1174,1174,1,440,1},
{1175,1175,0,441,0},
{1176,1176,1,441,1},
{1177,1177,0,442,0},
{1178,1178,1,442,1},
{1179,1179,0,443,0},
{1180,1180,1,443,1},
{1181,1181,0,444,0},
{1182,1182,1,444,1},
{1183,1183,0,445,0},
{1184,1184,1,445,1},
{1185,1185,0,446,0},
{1186,1186,1,446,1},
{1187,1187,0,447,0},
{1188,1188,1,447,1},
{1189,1189,0,448,0},
{1190,1190,1,448,1},
{1191,1191,0,449,0},
{1192,1192,1,449,1},
{1193,1193,0,450,0},
{1194,1194,1,450,1},
{1195,1195,0,451,0},
{1196,1196,1,451,1},
{1197,1197,0,452,0},
{1198,1198,1,452,1},
{1199,1199,0,453,0},
{1200,1200,1,453,1},
{1201,1201,0,454,0},
{1202,1202,1,454,1},
{1203,1203,0,455,0},
{1204,1204,1,455,1},
{1205,1205,0,456,0},
{1206,1206,1,456,1},
{1207,1207,0,457,0},
{1208,1208,1,457,1},
{1209,1209,0,458,0},
{1210,1210,1,458,1},
{1211,1211,0,459,0},
{1212,1212,1,459,1},
{1213,1213,0,460,0},
{1214,1214,1,460,1},
{1215,1215,0,461,0},
{1216,1216,4,461,0},
{1217,1217,1,461,1},
{1218,1218,0,462,0},
{1219,1219,1,462,1},
{1220,1220,0,463,0},
{1221,1221,1,463,1},
{1222,1222,0,464,0},
{1223,1223,1,464,1},
{1224,1224,0,465,0},
{1225,1225,1,465,1},
{1226,1226,0,466,0},
{1227,1227,1,466,1},
{1228,1228,0,467,0},
{1229,1229,1,467,1},
{1230,1230,0,468,0},
{1231,1231,0,468,0},
{1232,1232,1,468,1},
{1233,1233,0,469,0},
{1234,1234,1,469,1},
{1235,1235,0,470,0},
{1236,1236,1,470,1},
{1237,1237,0,471,0},
{1238,1238,1,471,1},
{1239,1239,0,472,0},
{1240,1240,1,472,1},
{1241,1241,0,473,0},
{1242,1242,1,473,1},
{1243,1243,0,474,0},
{1244,1244,1,474,1},
{1245,1245,0,475,0},
{1246,1246,1,475,1},
{1247,1247,0,476,0},
{1248,1248,1,476,1},
{1249,1249,0,477,0},
{1250,1250,1,477,1},
{1251,1251,0,478,0},
{1252,1252,1,478,1},
{1253,1253,0,479,0},
{1254,1254,1,479,1},
{1255,1255,0,480,0},
{1256,1256,1,480,1},
{1257,1257,0,481,0},
{1258,1258,1,481,1},
{1259,1259,0,482,0},
{1260,1260,1,482,1},
{1261,1261,0,483,0},
{1262,1262,1,483,1},
{1263,1263,0,484,0},
{1264,1264,1,484,1},
{1265,1265,0,485,0},
{1266,1266,1,485,1},
{1267,1267,0,486,0},
{1268,1268,1,486,1},
{1269,1269,0,487,0},
{1270,1270,1,487,1},
{1271,1271,0,488,0},
{1272,1272,1,488,1},
{1273,1273,0,489,0},
{1274,1274,1,489,1},
{1275,1275,0,490,0},
{1276,1276,1,490,1},
{1277,1277,0,491,0},
{1278,1278,1,491,1},
{1279,1279,0,492,0},
{1280,1280,1,492,1},
{1281,1281,0,493,0},
{1282,1282,1,493,1},
{1283,1283,0,494,0},
{1284,1284,1,494,1},
{1285,1285,0,495,0},
{1286,1286,1,495,1},
{1287,1287,0,496,0},
{1288,1288,1,496,1},
{1289,1289,0,497,0},
{1290,1290,1,497,1},
{1291,1291,0,498,0},
{1292,1292,1,498,1},
{1293,1293,0,499,0},
{1294,1294,1,499,1},
{1295,1295,0,500,0},
{1296,1296,1,500,1},
{1297,1297,0,501,0},
{1298,1298,1,501,1},
{1299,1299,0,502,0},
{1300,1300,1,502,1},
{1301,1301,0,503,0},
{1302,1302,1,503,1},
{1303,1303,0,504,0},
{1304,1304,1,504,1},
{1305,1305,0,505,0},
{1306,1306,1,505,1},
{1307,1307,0,506,0},
{1308,1308,1,506,1},
{1309,1309,0,507,0},
{1310,1310,1,507,1},
{1311,1311,0,508,0},
{1312,1312,1,508,1},
{1313,1313,0,509,0},
{1314,1314,1,509,1},
{1315,1315,0,510,0},
{1316,1316,1,510,1},
{1317,1317,0,511,0},
{1318,1318,1,511,1},
{1319,1319,0,512,0},
{1320,1320,1,512,1},
{1321,1321,0,513,0},
{1322,1322,1,513,1},
{1323,1323,0,514,0},
{1324,1324,1,514,1},
{1325,1325,0,515,0},
{1326,1326,1,515,1},
{1327,1327,0,516,0},
{1328,1328,4,516,0},
{1329,1329,1,516,1},
{1330,1330,1,517,1},
{1331,1331,1,518,1},
{1332,1332,1,519,1},
{1333,1333,1,520,1},
{1334,1334,1,521,1},
{1335,1335,1,522,1},
{1336,1336,1,523,1},
{1337,1337,1,524,1},
{1338,1338,1,525,1},
{1339,1339,1,526,1},
{1340,1340,1,527,1},
{1341,1341,1,528,1},
{1342,1342,1,529,1},
{1343,1343,1,530,1},
{1344,1344,1,531,1},
{1345,1345,1,532,1},
{1346,1346,1,533,1},
{1347,1347,1,534,1},
{1348,1348,1,535,1},
{1349,1349,1,536,1},
{1350,1350,1,537,1},
{1351,1351,1,538,1},
{1352,1352,1,539,1},
{1353,1353,1,540,1},
{1354,1354,1,541,1},
{1355,1355,1,542,1},
{1356,1356,1,543,1},
{1357,1357,1,544,1},
{1358,1358,1,545,1},
{1359,1359,1,546,1},
{1360,1360,1,547,1},
{1361,1361,1,548,1},
{1362,1362,1,549,1},
{1363,1363,1,550,1},
{1364,1364,1,551,1},
{1365,1365,1,552,1},
{1366,1366,1,553,1},
{1367,1368,4,554,0},
{1369,1369,0,554,0},
{1370,1375,0,554,0},
{1376,1376,0,554,0},
{1377,1414,0,554,0},
{1415,1415,1,554,2},
{1416,1416,0,556,0},
{1417,1417,0,556,0},
{1418,1418,0,556,0},
{1419,1420,4,556,0},
{1421,1422,0,556,0},
{1423,1423,0,556,0},
{1424,1424,4,556,0},
{1425,1441,0,556,0},
{1442,1442,0,556,0},
{1443,1455,0,556,0},
{1456,1465,0,556,0},
{1466,1466,0,556,0},
{1467,1469,0,556,0},
{1470,1470,0,556,0},
{1471,1471,0,556,0},
{1472,1472,0,556,0},
{1473,1474,0,556,0},
{1475,1475,0,556,0},
{1476,1476,0,556,0},
{1477,1477,0,556,0},
{1478,1478,0,556,0},
{1479,1479,0,556,0},
{1480,1487,4,556,0},
{1488,1514,0,556,0},
{1515,1518,4,556,0},
{1519,1519,0,556,0},
{1520,1524,0,556,0},
{1525,1535,4,556,0},
{1536,1539,4,556,0},
{1540,1540,4,556,0},
{1541,1541,4,556,0},
{1542,1546,0,556,0},
{1547,1547,0,556,0},
{1548,1548,0,556,0},
{1549,1551,0,556,0},
{1552,1557,0,556,0},
{1558,1562,0,556,0},
{1563,1563,0,556,0},
{1564,1564,4,556,0},
{1565,1565,4,556,0},
{1566,1566,0,556,0},
{1567,1567,0,556,0},
{1568,1568,0,556,0},
{1569,1594,0,556,0},
{1595,1599,0,556,0},
{1600,1600,0,556,0},
{1601,1618,0,556,0},
{1619,1621,0,556,0},
{1622,1624,0,556,0},
{1625,1630,0,556,0},
{1631,1631,0,556,0},
{1632,1641,0,556,0},
{1642,1645,0,556,0},
{1646,1647,0,556,0},
{1648,1652,0,556,0},
{1653,1653,1,556,2},
{1654,1654,1,558,2},
{1655,1655,1,560,2},
{1656,1656,1,562,2},
{1657,1719,0,564,0},
{1720,1721,0,564,0},
{1722,1726,0,564,0},
{1727,1727,0,564,0},
{1728,1742,0,564,0},
{1743,1743,0,564,0},
{1744,1747,0,564,0},
{1748,1748,0,564,0},
{1749,1756,0,564,0},
{1757,1757,4,564,0},
{1758,1758,0,564,0},
{1759,1768,0,564,0},
{1769,1769,0,564,0},
{1770,1773,0,564,0},
{1774,1775,0,564,0},
{1776,1785,0,564,0},
{1786,1790,0,564,0},
{1791,1791,0,564,0},
{1792,1805,0,564,0},
{1806,1806,4,564,0},
{1807,1807,4,564,0},
{1808,1836,0,564,0},
{1837,1839,0,564,0},
{1840,1866,0,564,0},
{1867,1868,4,564,0},
{1869,1871,0,564,0},
{1872,1901,0,564,0},
{1902,1919,0,564,0},
{1920,1968,0,564,0},
{1969,1969,0,564,0},
{1970,1983,4,564,0},
{1984,2037,0,564,0},
{2038,2042,0,564,0},
{2043,2044,4,564,0},
{2045,2045,0,564,0},
{2046,2047,0,564,0},
{2048,2093,0,564,0},
{2094,2095,4,564,0},
{2096,2110,0,564,0},
{2111,2111,4,564,0},
{2112,2139,0,564,0},
{2140,2141,4,564,0},
{2142,2142,0,564,0},
{2143,2143,4,564,0},
{2144,2154,0,564,0},
{2155,2207,4,564,0},
{2208,2208,0,564,0},
{2209,2209,0,564,0},
{2210,2220,0,564,0},
{2221,2226,0,564,0},
{2227,2228,0,564,0},
{2229,2229,4,564,0},
{2230,2237,0,564,0},
{2238,2247,0,564,0},
{2248,2258,4,564,0},
{2259,2259,0,564,0},
{2260,2273,0,564,0},
{2274,2274,4,564,0},
{2275,2275,0,564,0},
{2276,2302,0,564,0},
{2303,2303,0,564,0},
{2304,2304,0,564,0},
{2305,2307,0,564,0},
{2308,2308,0,564,0},
{2309,2361,0,564,0},
{2362,2363,0,564,0},
{2364,2381,0,564,0},
{2382,2382,0,564,0},
{2383,2383,0,564,0},
{2384,2388,0,564,0},
{2389,2389,0,564,0},
{2390,2391,0,564,0},
{2392,2392,1,564,2},
{2393,2393,1,566,2},
{2394,2394,1,568,2},
{2395,2395,1,570,2},
{2396,2396,1,572,2},
{2397,2397,1,574,2},
{2398,2398,1,576,2},
{2399,2399,1,578,2},
{2400,2403,0,580,0},
{2404,2405,0,580,0},
{2406,2415,0,580,0},
{2416,2416,0,580,0},
{2417,2418,0,580,0},
{2419,2423,0,580,0},
{2424,2424,0,580,0},
{2425,2426,0,580,0},
{2427,2428,0,580,0},
{2429,2429,0,580,0},
{2430,2431,0,580,0},
{2432,2432,0,580,0},
{2433,2435,0,580,0},
{2436,2436,4,580,0},
{2437,2444,0,580,0},
{2445,2446,4,580,0},
{2447,2448,0,580,0},
{2449,2450,4,580,0},
{2451,2472,0,580,0},
{2473,2473,4,580,0},
{2474,2480,0,580,0},
{2481,2481,4,580,0},
{2482,2482,0,580,0},
{2483,2485,4,580,0},
{2486,2489,0,580,0},
{2490,2491,4,580,0},
{2492,2492,0,580,0},
{2493,2493,0,580,0},
{2494,2500,0,580,0},
{2501,2502,4,580,0},
{2503,2504,0,580,0},
{2505,2506,4,580,0},
{2507,2509,0,580,0},
{2510,2510,0,580,0},
{2511,2518,4,580,0},
{2519,2519,0,580,0},
{2520,2523,4,580,0},
{2524,2524,1,580,2},
{2525,2525,1,582,2},
{2526,2526,4,584,0},
{2527,2527,1,584,2},
{2528,2531,0,586,0},
{2532,2533,4,586,0},
{2534,2545,0,586,0},
{2546,2554,0,586,0},
{2555,2555,0,586,0},
{2556,2556,0,586,0},
{2557,2557,0,586,0},
{2558,2558,0,586,0},
{2559,2560,4,586,0},
{2561,2561,0,586,0},
{2562,2562,0,586,0},
{2563,2563,0,586,0},
{2564,2564,4,586,0},
{2565,2570,0,586,0},
{2571,2574,4,586,0},
{2575,2576,0,586,0},
{2577,2578,4,586,0},
{2579,2600,0,586,0},
{2601,2601,4,586,0},
{2602,2608,0,586,0},
{2609,2609,4,586,0},
{2610,2610,0,586,0},
{2611,2611,1,586,2},
{2612,2612,4,588,0},
{2613,2613,0,588,0},
{2614,2614,1,588,2},
{2615,2615,4,590,0},
{2616,2617,0,590,0},
{2618,2619,4,590,0},
{2620,2620,0,590,0},
{2621,2621,4,590,0},
{2622,2626,0,590,0},
{2627,2630,4,590,0},
{2631,2632,0,590,0},
{2633,2634,4,590,0},
{2635,2637,0,590,0},
{2638,2640,4,590,0},
{2641,2641,0,590,0},
{2642,2648,4,590,0},
{2649,2649,1,590,2},
{2650,2650,1,592,2},
{2651,2651,1,594,2},
{2652,2652,0,596,0},
{2653,2653,4,596,0},
{2654,2654,1,596,2},
{2655,2661,4,598,0},
{2662,2676,0,598,0},
{2677,2677,0,598,0},
{2678,2678,0,598,0},
{2679,2688,4,598,0},
{2689,2691,0,598,0},
{2692,2692,4,598,0},
{2693,2699,0,598,0},
{2700,2700,0,598,0},
{2701,2701,0,598,0},
{2702,2702,4,598,0},
{2703,2705,0,598,0},
{2706,2706,4,598,0},
{2707,2728,0,598,0},
{2729,2729,4,598,0},
{2730,2736,0,598,0},
{2737,2737,4,598,0},
{2738,2739,0,598,0},
{2740,2740,4,598,0},
{2741,2745,0,598,0},
{2746,2747,4,598,0},
{2748,2757,0,598,0},
{2758,2758,4,598,0},
{2759,2761,0,598,0},
{2762,2762,4,598,0},
{2763,2765,0,598,0},
{2766,2767,4,598,0},
{2768,2768,0,598,0},
{2769,2783,4,598,0},
{2784,2784,0,598,0},
{2785,2787,0,598,0},
{2788,2789,4,598,0},
{2790,2799,0,598,0},
{2800,2800,0,598,0},
{2801,2801,0,598,0},
{2802,2808,4,598,0},
{2809,2809,0,598,0},
{2810,2815,0,598,0},
{2816,2816,4,598,0},
{2817,2819,0,598,0},
{2820,2820,4,598,0},
{2821,2828,0,598,0},
{2829,2830,4,598,0},
{2831,2832,0,598,0},
{2833,2834,4,598,0},
{2835,2856,0,598,0},
{2857,2857,4,598,0},
{2858,2864,0,598,0},
{2865,2865,4,598,0},
{2866,2867,0,598,0},
{2868,2868,4,598,0},
{2869,2869,0,598,0},
{2870,2873,0,598,0},
{2874,2875,4,598,0},
{2876,2883,0,598,0},
{2884,2884,0,598,0},
{2885,2886,4,598,0},
{2887,2888,0,598,0},
{2889,2890,4,598,0},
{2891,2893,0,598,0},
{2894,2900,4,598,0},
{2901,2901,0,598,0},
{2902,2903,0,598,0},
{2904,2907,4,598,0},
{2908,2908,1,598,2},
{2909,2909,1,600,2},
{2910,2910,4,602,0},
{2911,2913,0,602,0},
{2914,2915,0,602,0},
{2916,2917,4,602,0},
{2918,2927,0,602,0},
{2928,2928,0,602,0},
{2929,2929,0,602,0},
{2930,2935,0,602,0},
{2936,2945,4,602,0},
{2946,2947,0,602,0},
{2948,2948,4,602,0},
{2949,2954,0,602,0},
{2955,2957,4,602,0},
{2958,2960,0,602,0},
{2961,2961,4,602,0},
{2962,2965,0,602,0},
{2966,2968,4,602,0},
{2969,2970,0,602,0},
{2971,2971,4,602,0},
{2972,2972,0,602,0},
{2973,2973,4,602,0},
{2974,2975,0,602,0},
{2976,2978,4,602,0},
{2979,2980,0,602,0},
{2981,2983,4,602,0},
{2984,2986,0,602,0},
{2987,2989,4,602,0},
{2990,2997,0,602,0},
{2998,2998,0,602,0},
{2999,3001,0,602,0},
{3002,3005,4,602,0},
{3006,3010,0,602,0},
{3011,3013,4,602,0},
{3014,3016,0,602,0},
{3017,3017,4,602,0},
{3018,3021,0,602,0},
{3022,3023,4,602,0},
{3024,3024,0,602,0},
{3025,3030,4,602,0},
{3031,3031,0,602,0},
{3032,3045,4,602,0},
{3046,3046,0,602,0},
{3047,3055,0,602,0},
{3056,3058,0,602,0},
{3059,3066,0,602,0},
{3067,3071,4,602,0},
{3072,3072,0,602,0},
{3073,3075,0,602,0},
{3076,3076,0,602,0},
{3077,3084,0,602,0},
{3085,3085,4,602,0},
{3086,3088,0,602,0},
{3089,3089,4,602,0},
{3090,3112,0,602,0},
{3113,3113,4,602,0},
{3114,3123,0,602,0},
{3124,3124,0,602,0},
{3125,3129,0,602,0},
{3130,3132,4,602,0},
{3133,3133,0,602,0},
{3134,3140,0,602,0},
{3141,3141,4,602,0},
{3142,3144,0,602,0},
{3145,3145,4,602,0},
{3146,3149,0,602,0},
{3150,3156,4,602,0},
{3157,3158,0,602,0},
{3159,3159,4,602,0},
{3160,3161,0,602,0},
{3162,3162,0,602,0},
{3163,3167,4,602,0},
{3168,3169,0,602,0},
{3170,3171,0,602,0},
{3172,3173,4,602,0},
{3174,3183,0,602,0},
{3184,3190,4,602,0},
{3191,3191,0,602,0},
{3192,3199,0,602,0},
{3200,3200,0,602,0},
{3201,3201,0,602,0},
{3202,3203,0,602,0},
{3204,3204,0,602,0},
{3205,3212,0,602,0},
{3213,3213,4,602,0},
{3214,3216,0,602,0},
{3217,3217,4,602,0},
{3218,3240,0,602,0},
{3241,3241,4,602,0},
{3242,3251,0,602,0},
{3252,3252,4,602,0},
{3253,3257,0,602,0},
{3258,3259,4,602,0},
{3260,3261,0,602,0},
{3262,3268,0,602,0},
{3269,3269,4,602,0},
{3270,3272,0,602,0},
{3273,3273,4,602,0},
{3274,3277,0,602,0},
{3278,3284,4,602,0},
{3285,3286,0,602,0},
{3287,3293,4,602,0},
{3294,3294,0,602,0},
{3295,3295,4,602,0},
{3296,3297,0,602,0},
{3298,3299,0,602,0},
{3300,3301,4,602,0},
{3302,3311,0,602,0},
{3312,3312,4,602,0},
{3313,3314,0,602,0},
{3315,3327,4,602,0},
{3328,3328,0,602,0},
{3329,3329,0,602,0},
{3330,3331,0,602,0},
{3332,3332,0,602,0},
{3333,3340,0,602,0},
{3341,3341,4,602,0},
{3342,3344,0,602,0},
{3345,3345,4,602,0},
{3346,3368,0,602,0},
{3369,3369,0,602,0},
{3370,3385,0,602,0},
{3386,3386,0,602,0},
{3387,3388,0,602,0},
{3389,3389,0,602,0},
{3390,3395,0,602,0},
{3396,3396,0,602,0},
{3397,3397,4,602,0},
{3398,3400,0,602,0},
{3401,3401,4,602,0},
{3402,3405,0,602,0},
{3406,3406,0,602,0},
{3407,3407,0,602,0},
{3408,3411,4,602,0},
{3412,3414,0,602,0},
{3415,3415,0,602,0},
{3416,3422,0,602,0},
{3423,3423,0,602,0},
{3424,3425,0,602,0},
{3426,3427,0,602,0},
{3428,3429,4,602,0},
{3430,3439,0,602,0},
{3440,3445,0,602,0},
{3446,3448,0,602,0},
{3449,3449,0,602,0},
{3450,3455,0,602,0},
{3456,3456,4,602,0},
{3457,3457,0,602,0},
{3458,3459,0,602,0},
{3460,3460,4,602,0},
{3461,3478,0,602,0},
{3479,3481,4,602,0},
{3482,3505,0,602,0},
{3506,3506,4,602,0},
{3507,3515,0,602,0},
{3516,3516,4,602,0},
{3517,3517,0,602,0},
{3518,3519,4,602,0},
{3520,3526,0,602,0},
{3527,3529,4,602,0},
{3530,3530,0,602,0},
{3531,3534,4,602,0},
{3535,3540,0,602,0},
{3541,3541,4,602,0},
{3542,3542,0,602,0},
{3543,3543,4,602,0},
{3544,3551,0,602,0},
{3552,3557,4,602,0},
{3558,3567,0,602,0},
{3568,3569,4,602,0},
{3570,3571,0,602,0},
{3572,3572,0,602,0},
{3573,3584,4,602,0},
{3585,3634,0,602,0},
{3635,3635,1,602,2},
{3636,3642,0,604,0},
{3643,3646,4,604,0},
{3647,3647,0,604,0},
{3648,3662,0,604,0},
{3663,3663,0,604,0},
{3664,3673,0,604,0},
{3674,3675,0,604,0},
{3676,3712,4,604,0},
{3713,3714,0,604,0},
{3715,3715,4,604,0},
{3716,3716,0,604,0},
{3717,3717,4,604,0},
{3718,3718,0,604,0},
{3719,3720,0,604,0},
{3721,3721,0,604,0},
{3722,3722,0,604,0},
{3723,3723,4,604,0},
{3724,3724,0,604,0},
{3725,3725,0,604,0},
{3726,3731,0,604,0},
{3732,3735,0,604,0},
{3736,3736,0,604,0},
{3737,3743,0,604,0},
{3744,3744,0,604,0},
{3745,3747,0,604,0},
{3748,3748,4,604,0},
{3749,3749,0,604,0},
{3750,3750,4,604,0},
{3751,3751,0,604,0},
{3752,3753,0,604,0},
{3754,3755,0,604,0},
{3756,3756,0,604,0},
{3757,3762,0,604,0},
{3763,3763,1,604,2},
{3764,3769,0,606,0},
{3770,3770,0,606,0},
{3771,3773,0,606,0},
{3774,3775,4,606,0},
{3776,3780,0,606,0},
{3781,3781,4,606,0},
{3782,3782,0,606,0},
{3783,3783,4,606,0},
{3784,3789,0,606,0},
{3790,3791,4,606,0},
{3792,3801,0,606,0},
{3802,3803,4,606,0},
{3804,3804,1,606,2},
{3805,3805,1,608,2},
{3806,3807,0,610,0},
{3808,3839,4,610,0},
{3840,3840,0,610,0},
{3841,3850,0,610,0},
{3851,3851,0,610,0},
{3852,3852,1,610,1},
{3853,3863,0,611,0},
{3864,3865,0,611,0},
{3866,3871,0,611,0},
{3872,3881,0,611,0},
{3882,3892,0,611,0},
{3893,3893,0,611,0},
{3894,3894,0,611,0},
{3895,3895,0,611,0},
{3896,3896,0,611,0},
{3897,3897,0,611,0},
{3898,3901,0,611,0},
{3902,3906,0,611,0},
{3907,3907,1,611,2},
{3908,3911,0,613,0},
{3912,3912,4,613,0},
{3913,3916,0,613,0},
{3917,3917,1,613,2},
{3918,3921,0,615,0},
{3922,3922,1,615,2},
{3923,3926,0,617,0},
{3927,3927,1,617,2},
{3928,3931,0,619,0},
{3932,3932,1,619,2},
{3933,3944,0,621,0},
{3945,3945,1,621,2},
{3946,3946,0,623,0},
{3947,3948,0,623,0},
{3949,3952,4,623,0},
{3953,3954,0,623,0},
{3955,3955,1,623,2},
{3956,3956,0,625,0},
{3957,3957,1,625,2},
{3958,3958,1,627,2},
{3959,3959,1,629,3},
{3960,3960,1,632,2},
{3961,3961,1,634,3},
{3962,3968,0,637,0},
{3969,3969,1,637,2},
{3970,3972,0,639,0},
{3973,3973,0,639,0},
{3974,3979,0,639,0},
{3980,3983,0,639,0},
{3984,3986,0,639,0},
{3987,3987,1,639,2},
{3988,3989,0,641,0},
{3990,3990,0,641,0},
{3991,3991,0,641,0},
{3992,3992,4,641,0},
{3993,3996,0,641,0},
{3997,3997,1,641,2},
{3998,4001,0,643,0},
{4002,4002,1,643,2},
{4003,4006,0,645,0},
{4007,4007,1,645,2},
{4008,4011,0,647,0},
{4012,4012,1,647,2},
{4013,4013,0,649,0},
{4014,4016,0,649,0},
{4017,4023,0,649,0},
{4024,4024,0,649,0},
{4025,4025,1,649,2},
{4026,4028,0,651,0},
{4029,4029,4,651,0},
{4030,4037,0,651,0},
{4038,4038,0,651,0},
{4039,4044,0,651,0},
{4045,4045,4,651,0},
{4046,4046,0,651,0},
{4047,4047,0,651,0},
{4048,4049,0,651,0},
{4050,4052,0,651,0},
{4053,4056,0,651,0},
{4057,4058,0,651,0},
{4059,4095,4,651,0},
{4096,4129,0,651,0},
{4130,4130,0,651,0},
{4131,4135,0,651,0},
{4136,4136,0,651,0},
{4137,4138,0,651,0},
{4139,4139,0,651,0},
{4140,4146,0,651,0},
{4147,4149,0,651,0},
{4150,4153,0,651,0},
{4154,4159,0,651,0},
{4160,4169,0,651,0},
{4170,4175,0,651,0},
{4176,4185,0,651,0},
{4186,4249,0,651,0},
{4250,4253,0,651,0},
{4254,4255,0,651,0},
{4256,4293,4,651,0},
{4294,4294,4,651,0},
{4295,4295,1,651,1},
{4296,4300,4,652,0},
{4301,4301,1,652,1},
{4302,4303,4,653,0},
{4304,4342,0,653,0},
{4343,4344,0,653,0},
{4345,4346,0,653,0},
{4347,4347,0,653,0},
{4348,4348,1,653,1},
{4349,4351,0,654,0},
{4352,4441,0,654,0},
{4442,4446,0,654,0},
{4447,4448,4,654,0},
{4449,4514,0,654,0},
{4515,4519,0,654,0},
{4520,4601,0,654,0},
{4602,4607,0,654,0},
{4608,4614,0,654,0},
{4615,4615,0,654,0},
{4616,4678,0,654,0},
{4679,4679,0,654,0},
{4680,4680,0,654,0},
{4681,4681,4,654,0},
{4682,4685,0,654,0},
{4686,4687,4,654,0},
{4688,4694,0,654,0},
{4695,4695,4,654,0},
{4696,4696,0,654,0},
{4697,4697,4,654,0},
{4698,4701,0,654,0},
{4702,4703,4,654,0},
{4704,4742,0,654,0},
{4743,4743,0,654,0},
{4744,4744,0,654,0},
{4745,4745,4,654,0},
{4746,4749,0,654,0},
{4750,4751,4,654,0},
{4752,4782,0,654,0},
{4783,4783,0,654,0},
{4784,4784,0,654,0},
{4785,4785,4,654,0},
{4786,4789,0,654,0},
{4790,4791,4,654,0},
{4792,4798,0,654,0},
{4799,4799,4,654,0},
{4800,4800,0,654,0},
{4801,4801,4,654,0},
{4802,4805,0,654,0},
{4806,4807,4,654,0},
{4808,4814,0,654,0},
{4815,4815,0,654,0},
{4816,4822,0,654,0},
{4823,4823,4,654,0},
{4824,4846,0,654,0},
{4847,4847,0,654,0},
{4848,4878,0,654,0},
{4879,4879,0,654,0},
{4880,4880,0,654,0},
{4881,4881,4,654,0},
{4882,4885,0,654,0},
{4886,4887,4,654,0},
{4888,4894,0,654,0},
{4895,4895,0,654,0},
{4896,4934,0,654,0},
{4935,4935,0,654,0},
{4936,4954,0,654,0},
{4955,4956,4,654,0},
{4957,4958,0,654,0},
{4959,4959,0,654,0},
{4960,4960,0,654,0},
{4961,4988,0,654,0},
{4989,4991,4,654,0},
{4992,5007,0,654,0},
{5008,5017,0,654,0},
{5018,5023,4,654,0},
{5024,5108,0,654,0},
{5109,5109,0,654,0},
{5110,5111,4,654,0},
{5112,5112,1,654,1},
{5113,5113,1,655,1},
{5114,5114,1,656,1},
{5115,5115,1,657,1},
{5116,5116,1,658,1},
{5117,5117,1,659,1},
{5118,5119,4,660,0},
{5120,5120,0,660,0},
{5121,5740,0,660,0},
{5741,5742,0,660,0},
{5743,5750,0,660,0},
{5751,5759,0,660,0},
{5760,5760,4,660,0},
{5761,5786,0,660,0},
{5787,5788,0,660,0},
{5789,5791,4,660,0},
{5792,5866,0,660,0},
{5867,5872,0,660,0},
{5873,5880,0,660,0},
{5881,5887,4,660,0},
{5888,5900,0,660,0},
{5901,5901,4,660,0},
{5902,5908,0,660,0},
{5909,5919,4,660,0},
{5920,5940,0,660,0},
{5941,5942,0,660,0},
{5943,5951,4,660,0},
{5952,5971,0,660,0},
{5972,5983,4,660,0},
{5984,5996,0,660,0},
{5997,5997,4,660,0},
{5998,6000,0,660,0},
{6001,6001,4,660,0},
{6002,6003,0,660,0},
{6004,6015,4,660,0},
{6016,6067,0,660,0},
{6068,6069,4,660,0},
{6070,6099,0,660,0},
{6100,6102,0,660,0},
{6103,6103,0,660,0},
{6104,6107,0,660,0},
{6108,6108,0,660,0},
{6109,6109,0,660,0},
{6110,6111,4,660,0},
{6112,6121,0,660,0},
{6122,6127,4,660,0},
{6128,6137,0,660,0},
{6138,6143,4,660,0},
{6144,6149,0,660,0},
{6150,6150,4,660,0},
{6151,6154,0,660,0},
{6155,6157,2,660,0},
{6158,6158,4,660,0},
{6159,6159,4,660,0},
{6160,6169,0,660,0},
{6170,6175,4,660,0},
{6176,6263,0,660,0},
{6264,6264,0,660,0},
{6265,6271,4,660,0},
{6272,6313,0,660,0},
{6314,6314,0,660,0},
{6315,6319,4,660,0},
{6320,6389,0,660,0},
{6390,6399,4,660,0},
{6400,6428,0,660,0},
{6429,6430,0,660,0},
{6431,6431,4,660,0},
{6432,6443,0,660,0},
{6444,6447,4,660,0},
{6448,6459,0,660,0},
{6460,6463,4,660,0},
{6464,6464,0,660,0},
{6465,6467,4,660,0},
{6468,6469,0,660,0},
{6470,6509,0,660,0},
{6510,6511,4,660,0},
{6512,6516,0,660,0},
{6517,6527,4,660,0},
{6528,6569,0,660,0},
{6570,6571,0,660,0},
{6572,6575,4,660,0},
{6576,6601,0,660,0},
{6602,6607,4,660,0},
{6608,6617,0,660,0},
{6618,6618,0,660,0},
{6619,6621,4,660,0},
{6622,6623,0,660,0},
{6624,6655,0,660,0},
{6656,6683,0,660,0},
{6684,6685,4,660,0},
{6686,6687,0,660,0},
{6688,6750,0,660,0},
{6751,6751,4,660,0},
{6752,6780,0,660,0},
{6781,6782,4,660,0},
{6783,6793,0,660,0},
{6794,6799,4,660,0},
{6800,6809,0,660,0},
{6810,6815,4,660,0},
{6816,6822,0,660,0},
{6823,6823,0,660,0},
{6824,6829,0,660,0},
{6830,6831,4,660,0},
{6832,6845,0,660,0},
{6846,6846,0,660,0},
{6847,6848,0,660,0},
{6849,6911,4,660,0},
{6912,6987,0,660,0},
{6988,6991,4,660,0},
{6992,7001,0,660,0},
{7002,7018,0,660,0},
{7019,7027,0,660,0},
{7028,7036,0,660,0},
{7037,7039,4,660,0},
{7040,7082,0,660,0},
{7083,7085,0,660,0},
{7086,7097,0,660,0},
{7098,7103,0,660,0},
{7104,7155,0,660,0},
{7156,7163,4,660,0},
{7164,7167,0,660,0},
{7168,7223,0,660,0},
{7224,7226,4,660,0},
{7227,7231,0,660,0},
{7232,7241,0,660,0},
{7242,7244,4,660,0},
{7245,7293,0,660,0},
{7294,7295,0,660,0},
{7296,7296,1,660,1},
{7297,7297,1,661,1},
{7298,7298,1,662,1},
{7299,7299,1,663,1},
{7300,7301,1,664,1},
{7302,7302,1,665,1},
{7303,7303,1,666,1},
{7304,7304,1,667,1},
{7305,7311,4,668,0},
{7312,7312,1,668,1},
{7313,7313,1,669,1},
{7314,7314,1,670,1},
{7315,7315,1,671,1},
{7316,7316,1,672,1},
{7317,7317,1,673,1},
{7318,7318,1,674,1},
{7319,7319,1,675,1},
{7320,7320,1,676,1},
{7321,7321,1,677,1},
{7322,7322,1,678,1},
{7323,7323,1,679,1},
{7324,7324,1,680,1},
{7325,7325,1,681,1},
{7326,7326,1,682,1},
{7327,7327,1,683,1},
{7328,7328,1,684,1},
{7329,7329,1,685,1},
{7330,7330,1,686,1},
{7331,7331,1,687,1},
{7332,7332,1,688,1},
{7333,7333,1,689,1},
{7334,7334,1,690,1},
{7335,7335,1,691,1},
{7336,7336,1,692,1},
{7337,7337,1,693,1},
{7338,7338,1,694,1},
{7339,7339,1,695,1},
{7340,7340,1,696,1},
{7341,7341,1,697,1},
{7342,7342,1,698,1},
{7343,7343,1,699,1},
{7344,7344,1,700,1},
{7345,7345,1,701,1},
{7346,7346,1,702,1},
{7347,7347,1,703,1},
{7348,7348,1,704,1},
{7349,7349,1,705,1},
{7350,7350,1,706,1},
{7351,7351,1,707,1},
{7352,7352,1,708,1},
{7353,7353,1,709,1},
{7354,7354,1,710,1},
{7355,7356,4,711,0},
{7357,7357,1,711,1},
{7358,7358,1,712,1},
{7359,7359,1,713,1},
{7360,7367,0,714,0},
{7368,7375,4,714,0},
{7376,7378,0,714,0},
{7379,7379,0,714,0},
{7380,7410,0,714,0},
{7411,7414,0,714,0},
{7415,7415,0,714,0},
{7416,7417,0,714,0},
{7418,7418,0,714,0},
{7419,7423,4,714,0},
{7424,7467,0,714,0},
{7468,7468,1,714,1},
{7469,7469,1,715,1},
{7470,7470,1,716,1},
{7471,7471,0,717,0},
{7472,7472,1,717,1},
{7473,7473,1,718,1},
{7474,7474,1,719,1},
{7475,7475,1,720,1},
{7476,7476,1,721,1},
{7477,7477,1,722,1},
{7478,7478,1,723,1},
{7479,7479,1,724,1},
{7480,7480,1,725,1},
{7481,7481,1,726,1},
{7482,7482,1,727,1},
{7483,7483,0,728,0},
{7484,7484,1,728,1},
{7485,7485,1,729,1},
{7486,7486,1,730,1},
{7487,7487,1,731,1},
{7488,7488,1,732,1},
{7489,7489,1,733,1},
{7490,7490,1,734,1},
{7491,7491,1,735,1},
{7492,7492,1,736,1},
{7493,7493,1,737,1},
{7494,7494,1,738,1},
{7495,7495,1,739,1},
{7496,7496,1,740,1},
{7497,7497,1,741,1},
{7498,7498,1,742,1},
{7499,7499,1,743,1},
{7500,7500,1,744,1},
{7501,7501,1,745,1},
{7502,7502,0,746,0},
{7503,7503,1,746,1},
{7504,7504,1,747,1},
{7505,7505,1,748,1},
{7506,7506,1,749,1},
{7507,7507,1,750,1},
{7508,7508,1,751,1},
{7509,7509,1,752,1},
{7510,7510,1,753,1},
{7511,7511,1,754,1},
{7512,7512,1,755,1},
{7513,7513,1,756,1},
{7514,7514,1,757,1},
{7515,7515,1,758,1},
{7516,7516,1,759,1},
{7517,7517,1,760,1},
{7518,7518,1,761,1},
{7519,7519,1,762,1},
{7520,7520,1,763,1},
{7521,7521,1,764,1},
{7522,7522,1,765,1},
{7523,7523,1,766,1},
{7524,7524,1,767,1},
{7525,7525,1,768,1},
{7526,7526,1,769,1},
{7527,7527,1,770,1},
{7528,7528,1,771,1},
{7529,7529,1,772,1},
{7530,7530,1,773,1},
{7531,7531,0,774,0},
{7532,7543,0,774,0},
{7544,7544,1,774,1},
{7545,7578,0,775,0},
{7579,7579,1,775,1},
{7580,7580,1,776,1},
{7581,7581,1,777,1},
{7582,7582,1,778,1},
{7583,7583,1,779,1},
{7584,7584,1,780,1},
{7585,7585,1,781,1},
{7586,7586,1,782,1},
{7587,7587,1,783,1},
{7588,7588,1,784,1},
{7589,7589,1,785,1},
{7590,7590,1,786,1},
{7591,7591,1,787,1},
{7592,7592,1,788,1},
{7593,7593,1,789,1},
{7594,7594,1,790,1},
{7595,7595,1,791,1},
{7596,7596,1,792,1},
{7597,7597,1,793,1},
{7598,7598,1,794,1},
{7599,7599,1,795,1},
{7600,7600,1,796,1},
{7601,7601,1,797,1},
{7602,7602,1,798,1},
{7603,7603,1,799,1},
{7604,7604,1,800,1},
{7605,7605,1,801,1},
{7606,7606,1,802,1},
{7607,7607,1,803,1},
{7608,7608,1,804,1},
{7609,7609,1,805,1},
{7610,7610,1,806,1},
{7611,7611,1,807,1},
{7612,7612,1,808,1},
{7613,7613,1,809,1},
{7614,7614,1,810,1},
{7615,7615,1,811,1},
{7616,7619,0,812,0},
{7620,7626,0,812,0},
{7627,7654,0,812,0},
{7655,7669,0,812,0},
{7670,7673,0,812,0},
{7674,7674,4,812,0},
{7675,7675,0,812,0},
{7676,7676,0,812,0},
{7677,7677,0,812,0},
{7678,7679,0,812,0},
{7680,7680,1,812,1},
{7681,7681,0,813,0},
{7682,7682,1,813,1},
{7683,7683,0,814,0},
{7684,7684,1,814,1},
{7685,7685,0,815,0},
{7686,7686,1,815,1},
{7687,7687,0,816,0},
{7688,7688,1,816,1},
{7689,7689,0,817,0},
{7690,7690,1,817,1},
{7691,7691,0,818,0},
{7692,7692,1,818,1},
{7693,7693,0,819,0},
{7694,7694,1,819,1},
{7695,7695,0,820,0},
{7696,7696,1,820,1},
{7697,7697,0,821,0},
{7698,7698,1,821,1},
{7699,7699,0,822,0},
{7700,7700,1,822,1},
{7701,7701,0,823,0},
{7702,7702,1,823,1},
{7703,7703,0,824,0},
{7704,7704,1,824,1},
{7705,7705,0,825,0},
{7706,7706,1,825,1},
{7707,7707,0,826,0},
{7708,7708,1,826,1},
{7709,7709,0,827,0},
{7710,7710,1,827,1},
{7711,7711,0,828,0},
{7712,7712,1,828,1},
{7713,7713,0,829,0},
{7714,7714,1,829,1},
{7715,7715,0,830,0},
{7716,7716,1,830,1},
{7717,7717,0,831,0},
{7718,7718,1,831,1},
{7719,7719,0,832,0},
{7720,7720,1,832,1},
{7721,7721,0,833,0},
{7722,7722,1,833,1},
{7723,7723,0,834,0},
{7724,7724,1,834,1},
{7725,7725,0,835,0},
{7726,7726,1,835,1},
{7727,7727,0,836,0},
{7728,7728,1,836,1},
{7729,7729,0,837,0},
{7730,7730,1,837,1},
{7731,7731,0,838,0},
{7732,7732,1,838,1},
{7733,7733,0,839,0},
{7734,7734,1,839,1},
{7735,7735,0,840,0},
{7736,7736,1,840,1},
{7737,7737,0,841,0},
{7738,7738,1,841,1},
{7739,7739,0,842,0},
{7740,7740,1,842,1},
{7741,7741,0,843,0},
{7742,7742,1,843,1},
{7743,7743,0,844,0},
{7744,7744,1,844,1},
{7745,7745,0,845,0},
{7746,7746,1,845,1},
{7747,7747,0,846,0},
{7748,7748,1,846,1},
{7749,7749,0,847,0},
{7750,7750,1,847,1},
{7751,7751,0,848,0},
{7752,7752,1,848,1},
{7753,7753,0,849,0},
{7754,7754,1,849,1},
{7755,7755,0,850,0},
{7756,7756,1,850,1},
{7757,7757,0,851,0},
{7758,7758,1,851,1},
{7759,7759,0,852,0},
{7760,7760,1,852,1},
{7761,7761,0,853,0},
{7762,7762,1,853,1},
{7763,7763,0,854,0},
{7764,7764,1,854,1},
{7765,7765,0,855,0},
{7766,7766,1,855,1},
{7767,7767,0,856,0},
{7768,7768,1,856,1},
{7769,7769,0,857,0},
{7770,7770,1,857,1},
{7771,7771,0,858,0},
{7772,7772,1,858,1},
{7773,7773,0,859,0},
{7774,7774,1,859,1},
{7775,7775,0,860,0},
{7776,7776,1,860,1},
{7777,7777,0,861,0},
{7778,7778,1,861,1},
{7779,7779,0,862,0},
{7780,7780,1,862,1},
{7781,7781,0,863,0},
{7782,7782,1,863,1},
{7783,7783,0,864,0},
{7784,7784,1,864,1},
{7785,7785,0,865,0},
{7786,7786,1,865,1},
{7787,7787,0,866,0},
{7788,7788,1,866,1},
{7789,7789,0,867,0},
{7790,7790,1,867,1},
{7791,7791,0,868,0},
{7792,7792,1,868,1},
{7793,7793,0,869,0},
{7794,7794,1,869,1},
{7795,7795,0,870,0},
{7796,7796,1,870,1},
{7797,7797,0,871,0},
{7798,7798,1,871,1},
{7799,7799,0,872,0},
{7800,7800,1,872,1},
{7801,7801,0,873,0},
{7802,7802,1,873,1},
{7803,7803,0,874,0},
{7804,7804,1,874,1},
{7805,7805,0,875,0},
{7806,7806,1,875,1},
{7807,7807,0,876,0},
{7808,7808,1,876,1},
{7809,7809,0,877,0},
{7810,7810,1,877,1},
{7811,7811,0,878,0},
{7812,7812,1,878,1},
{7813,7813,0,879,0},
{7814,7814,1,879,1},
{7815,7815,0,880,0},
{7816,7816,1,880,1},
{7817,7817,0,881,0},
{7818,7818,1,881,1},
{7819,7819,0,882,0},
{7820,7820,1,882,1},
{7821,7821,0,883,0},
{7822,7822,1,883,1},
{7823,7823,0,884,0},
{7824,7824,1,884,1},
{7825,7825,0,885,0},
{7826,7826,1,885,1},
{7827,7827,0,886,0},
{7828,7828,1,886,1},
{7829,7833,0,887,0},
{7834,7834,1,887,2},
{7835,7835,1,889,1},
{7836,7837,0,890,0},
{7838,7838,1,890,2},
{7839,7839,0,892,0},
{7840,7840,1,892,1},
{7841,7841,0,893,0},
{7842,7842,1,893,1},
{7843,7843,0,894,0},
{7844,7844,1,894,1},
{7845,7845,0,895,0},
{7846,7846,1,895,1},
{7847,7847,0,896,0},
{7848,7848,1,896,1},
{7849,7849,0,897,0},
{7850,7850,1,897,1},
{7851,7851,0,898,0},
{7852,7852,1,898,1},
{7853,7853,0,899,0},
{7854,7854,1,899,1},
{7855,7855,0,900,0},
{7856,7856,1,900,1},
{7857,7857,0,901,0},
{7858,7858,1,901,1},
{7859,7859,0,902,0},
{7860,7860,1,902,1},
{7861,7861,0,903,0},
{7862,7862,1,903,1},
{7863,7863,0,904,0},
{7864,7864,1,904,1},
{7865,7865,0,905,0},
{7866,7866,1,905,1},
{7867,7867,0,906,0},
{7868,7868,1,906,1},
{7869,7869,0,907,0},
{7870,7870,1,907,1},
{7871,7871,0,908,0},
{7872,7872,1,908,1},
{7873,7873,0,909,0},
{7874,7874,1,909,1},
{7875,7875,0,910,0},
{7876,7876,1,910,1},
{7877,7877,0,911,0},
{7878,7878,1,911,1},
{7879,7879,0,912,0},
{7880,7880,1,912,1},
{7881,7881,0,913,0},
{7882,7882,1,913,1},
{7883,7883,0,914,0},
{7884,7884,1,914,1},
{7885,7885,0,915,0},
{7886,7886,1,915,1},
{7887,7887,0,916,0},
{7888,7888,1,916,1},
{7889,7889,0,917,0},
{7890,7890,1,917,1},
{7891,7891,0,918,0},
{7892,7892,1,918,1},
{7893,7893,0,919,0},
{7894,7894,1,919,1},
{7895,7895,0,920,0},
{7896,7896,1,920,1},
{7897,7897,0,921,0},
{7898,7898,1,921,1},
{7899,7899,0,922,0},
{7900,7900,1,922,1},
{7901,7901,0,923,0},
{7902,7902,1,923,1},
{7903,7903,0,924,0},
{7904,7904,1,924,1},
{7905,7905,0,925,0},
{7906,7906,1,925,1},
{7907,7907,0,926,0},
{7908,7908,1,926,1},
{7909,7909,0,927,0},
{7910,7910,1,927,1},
{7911,7911,0,928,0},
{7912,7912,1,928,1},
{7913,7913,0,929,0},
{7914,7914,1,929,1},
{7915,7915,0,930,0},
{7916,7916,1,930,1},
{7917,7917,0,931,0},
{7918,7918,1,931,1},
{7919,7919,0,932,0},
{7920,7920,1,932,1},
{7921,7921,0,933,0},
{7922,7922,1,933,1},
{7923,7923,0,934,0},
{7924,7924,1,934,1},
{7925,7925,0,935,0},
{7926,7926,1,935,1},
{7927,7927,0,936,0},
{7928,7928,1,936,1},
{7929,7929,0,937,0},
{7930,7930,1,937,1},
{7931,7931,0,938,0},
{7932,7932,1,938,1},
{7933,7933,0,939,0},
{7934,7934,1,939,1},
{7935,7935,0,940,0},
{7936,7943,0,940,0},
{7944,7944,1,940,1},
{7945,7945,1,941,1},
{7946,7946,1,942,1},
{7947,7947,1,943,1},
{7948,7948,1,944,1},
{7949,7949,1,945,1},
{7950,7950,1,946,1},
{7951,7951,1,947,1},
{7952,7957,0,948,0},
{7958,7959,4,948,0},
{7960,7960,1,948,1},
{7961,7961,1,949,1},
{7962,7962,1,950,1},
{7963,7963,1,951,1},
{7964,7964,1,952,1},
{7965,7965,1,953,1},
{7966,7967,4,954,0},
{7968,7975,0,954,0},
{7976,7976,1,954,1},
{7977,7977,1,955,1},
{7978,7978,1,956,1},
{7979,7979,1,957,1},
{7980,7980,1,958,1},
{7981,7981,1,959,1},
{7982,7982,1,960,1},
{7983,7983,1,961,1},
{7984,7991,0,962,0},
{7992,7992,1,962,1},
{7993,7993,1,963,1},
{7994,7994,1,964,1},
{7995,7995,1,965,1},
{7996,7996,1,966,1},
{7997,7997,1,967,1},
{7998,7998,1,968,1},
{7999,7999,1,969,1},
{8000,8005,0,970,0},
{8006,8007,4,970,0},
{8008,8008,1,970,1},
{8009,8009,1,971,1},
{8010,8010,1,972,1},
{8011,8011,1,973,1},
{8012,8012,1,974,1},
{8013,8013,1,975,1},
{8014,8015,4,976,0},
{8016,8023,0,976,0},
{8024,8024,4,976,0},
{8025,8025,1,976,1},
{8026,8026,4,977,0},
{8027,8027,1,977,1},
{8028,8028,4,978,0},
{8029,8029,1,978,1},
{8030,8030,4,979,0},
{8031,8031,1,979,1},
{8032,8039,0,980,0},
{8040,8040,1,980,1},
{8041,8041,1,981,1},
{8042,8042,1,982,1},
{8043,8043,1,983,1},
{8044,8044,1,984,1},
{8045,8045,1,985,1},
{8046,8046,1,986,1},
{8047,8047,1,987,1},
{8048,8048,0,988,0},
{8049,8049,1,988,1},
{8050,8050,0,989,0},
{8051,8051,1,989,1},
{8052,8052,0,990,0},
{8053,8053,1,990,1},
{8054,8054,0,991,0},
{8055,8055,1,991,1},
{8056,8056,0,992,0},
{8057,8057,1,992,1},
{8058,8058,0,993,0},
{8059,8059,1,993,1},
{8060,8060,0,994,0},
{8061,8061,1,994,1},
{8062,8063,4,995,0},
{8064,8064,1,995,2},
{8065,8065,1,997,2},
{8066,8066,1,999,2},
{8067,8067,1,1001,2},
{8068,8068,1,1003,2},
{8069,8069,1,1005,2},
{8070,8070,1,1007,2},
{8071,8071,1,1009,2},
{8072,8072,1,1011,2},
{8073,8073,1,1013,2},
{8074,8074,1,1015,2},
{8075,8075,1,1017,2},
{8076,8076,1,1019,2},
{8077,8077,1,1021,2},
{8078,8078,1,1023,2},
{8079,8079,1,1025,2},
{8080,8080,1,1027,2},
{8081,8081,1,1029,2},
{8082,8082,1,1031,2},
{8083,8083,1,1033,2},
{8084,8084,1,1035,2},
{8085,8085,1,1037,2},
{8086,8086,1,1039,2},
{8087,8087,1,1041,2},
{8088,8088,1,1043,2},
{8089,8089,1,1045,2},
{8090,8090,1,1047,2},
{8091,8091,1,1049,2},
{8092,8092,1,1051,2},
{8093,8093,1,1053,2},
{8094,8094,1,1055,2},
{8095,8095,1,1057,2},
{8096,8096,1,1059,2},
{8097,8097,1,1061,2},
{8098,8098,1,1063,2},
{8099,8099,1,1065,2},
{8100,8100,1,1067,2},
{8101,8101,1,1069,2},
{8102,8102,1,1071,2},
{8103,8103,1,1073,2},
{8104,8104,1,1075,2},
{8105,8105,1,1077,2},
{8106,8106,1,1079,2},
{8107,8107,1,1081,2},
{8108,8108,1,1083,2},
{8109,8109,1,1085,2},
{8110,8110,1,1087,2},
{8111,8111,1,1089,2},
{8112,8113,0,1091,0},
{8114,8114,1,1091,2},
{8115,8115,1,1093,2},
{8116,8116,1,1095,2},
{8117,8117,4,1097,0},
{8118,8118,0,1097,0},
{8119,8119,1,1097,2},
{8120,8120,1,1099,1},
{8121,8121,1,1100,1},
{8122,8122,1,1101,1},
{8123,8123,1,1102,1},
{8124,8124,1,1103,2},
{8125,8125,6,1105,2},
{8126,8126,1,1107,1},
{8127,8127,6,1108,2},
{8128,8128,6,1110,2},
{8129,8129,6,1112,3},
{8130,8130,1,1115,2},
{8131,8131,1,1117,2},
{8132,8132,1,1119,2},
{8133,8133,4,1121,0},
{8134,8134,0,1121,0},
{8135,8135,1,1121,2},
{8136,8136,1,1123,1},
{8137,8137,1,1124,1},
{8138,8138,1,1125,1},
{8139,8139,1,1126,1},
{8140,8140,1,1127,2},
{8141,8141,6,1129,3},
{8142,8142,6,1132,3},
{8143,8143,6,1135,3},
{8144,8146,0,1138,0},
{8147,8147,1,1138,1},
{8148,8149,4,1139,0},
{8150,8151,0,1139,0},
{8152,8152,1,1139,1},
{8153,8153,1,1140,1},
{8154,8154,1,1141,1},
{8155,8155,1,1142,1},
{8156,8156,4,1143,0},
{8157,8157,6,1143,3},
{8158,8158,6,1146,3},
{8159,8159,6,1149,3},
{8160,8162,0,1152,0},
{8163,8163,1,1152,1},
{8164,8167,0,1153,0},
{8168,8168,1,1153,1},
{8169,8169,1,1154,1},
{8170,8170,1,1155,1},
{8171,8171,1,1156,1},
{8172,8172,1,1157,1},
{8173,8173,6,1158,3},
{8174,8174,6,1161,3},
{8175,8175,6,1164,1},
{8176,8177,4,1165,0},
{8178,8178,1,1165,2},
{8179,8179,1,1167,2},
{8180,8180,1,1169,2},
{8181,8181,4,1171,0},
{8182,8182,0,1171,0},
{8183,8183,1,1171,2},
{8184,8184,1,1173,1},
{8185,8185,1,1174,1},
{8186,8186,1,1175,1},
{8187,8187,1,1176,1},
{8188,8188,1,1177,2},
{8189,8189,6,1179,2},
{8190,8190,6,1181,2},
{8191,8191,4,1183,0},
{8192,8202,6,1183,1},
{8203,8203,2,1184,0},
{8204,8205,3,1184,0},
{8206,8207,4,1184,0},
{8208,8208,0,1184,0},
{8209,8209,1,1184,1},
{8210,8214,0,1185,0},
{8215,8215,6,1185,2},
{8216,8227,0,1187,0},
{8228,8230,4,1187,0},
{8231,8231,0,1187,0},
{8232,8238,4,1187,0},
{8239,8239,6,1187,1},
{8240,8242,0,1188,0},
{8243,8243,1,1188,2},
{8244,8244,1,1190,3},
{8245,8245,0,1193,0},
{8246,8246,1,1193,2},
{8247,8247,1,1195,3},
{8248,8251,0,1198,0},
{8252,8252,6,1198,2},
{8253,8253,0,1200,0},
{8254,8254,6,1200,2},
{8255,8262,0,1202,0},
{8263,8263,6,1202,2},
{8264,8264,6,1204,2},
{8265,8265,6,1206,2},
{8266,8269,0,1208,0},
{8270,8274,0,1208,0},
{8275,8276,0,1208,0},
{8277,8278,0,1208,0},
{8279,8279,1,1208,4},
{8280,8286,0,1212,0},
{8287,8287,6,1212,1},
{8288,8288,2,1213,0},
{8289,8291,4,1213,0},
{8292,8292,2,1213,0},
{8293,8293,4,1213,0},
{8294,8297,4,1213,0},
{8298,8303,4,1213,0},
{8304,8304,1,1213,1},
{8305,8305,1,1214,1},
{8306,8307,4,1215,0},
{8308,8308,1,1215,1},
{8309,8309,1,1216,1},
{8310,8310,1,1217,1},
{8311,8311,1,1218,1},
{8312,8312,1,1219,1},
{8313,8313,1,1220,1},
{8314,8314,6,1221,1},
{8315,8315,1,1222,1},
{8316,8316,6,1223,1},
{8317,8317,6,1224,1},
{8318,8318,6,1225,1},
{8319,8319,1,1226,1},
{8320,8320,1,1227,1},
{8321,8321,1,1228,1},
{8322,8322,1,1229,1},
{8323,8323,1,1230,1},
{8324,8324,1,1231,1},
{8325,8325,1,1232,1},
{8326,8326,1,1233,1},
{8327,8327,1,1234,1},
{8328,8328,1,1235,1},
{8329,8329,1,1236,1},
{8330,8330,6,1237,1},
{8331,8331,1,1238,1},
{8332,8332,6,1239,1},
{8333,8333,6,1240,1},
{8334,8334,6,1241,1},
{8335,8335,4,1242,0},
{8336,8336,1,1242,1},
{8337,8337,1,1243,1},
{8338,8338,1,1244,1},
{8339,8339,1,1245,1},
{8340,8340,1,1246,1},
{8341,8341,1,1247,1},
{8342,8342,1,1248,1},
{8343,8343,1,1249,1},
{8344,8344,1,1250,1},
{8345,8345,1,1251,1},
{8346,8346,1,1252,1},
{8347,8347,1,1253,1},
{8348,8348,1,1254,1},
{8349,8351,4,1255,0},
{8352,8359,0,1255,0},
{8360,8360,1,1255,2},
{8361,8362,0,1257,0},
{8363,8363,0,1257,0},
{8364,8364,0,1257,0},
{8365,8367,0,1257,0},
{8368,8369,0,1257,0},
{8370,8373,0,1257,0},
{8374,8376,0,1257,0},
{8377,8377,0,1257,0},
{8378,8378,0,1257,0},
{8379,8381,0,1257,0},
{8382,8382,0,1257,0},
{8383,8383,0,1257,0},
{8384,8399,4,1257,0},
{8400,8417,0,1257,0},
{8418,8419,0,1257,0},
{8420,8426,0,1257,0},
{8427,8427,0,1257,0},
{8428,8431,0,1257,0},
{8432,8432,0,1257,0},
{8433,8447,4,1257,0},
{8448,8448,6,1257,3},
{8449,8449,6,1260,3},
{8450,8450,1,1263,1},
{8451,8451,1,1264,2},
{8452,8452,0,1266,0},
{8453,8453,6,1266,3},
{8454,8454,6,1269,3},
{8455,8455,1,1272,1},
{8456,8456,0,1273,0},
{8457,8457,1,1273,2},
{8458,8458,1,1275,1},
{8459,8462,1,1276,1},
{8463,8463,1,1277,1},
{8464,8465,1,1278,1},
{8466,8467,1,1279,1},
{8468,8468,0,1280,0},
{8469,8469,1,1280,1},
{8470,8470,1,1281,2},
{8471,8472,0,1283,0},
{8473,8473,1,1283,1},
{8474,8474,1,1284,1},
{8475,8477,1,1285,1},
{8478,8479,0,1286,0},
{8480,8480,1,1286,2},
{8481,8481,1,1288,3},
{8482,8482,1,1291,2},
{8483,8483,0,1293,0},
{8484,8484,1,1293,1},
{8485,8485,0,1294,0},
{8486,8486,1,1294,1},
{8487,8487,0,1295,0},
{8488,8488,1,1295,1},
{8489,8489,0,1296,0},
{8490,8490,1,1296,1},
{8491,8491,1,1297,1},
{8492,8492,1,1298,1},
{8493,8493,1,1299,1},
{8494,8494,0,1300,0},
{8495,8496,1,1300,1},
{8497,8497,1,1301,1},
{8498,8498,4,1302,0},
{8499,8499,1,1302,1},
{8500,8500,1,1303,1},
{8501,8501,1,1304,1},
{8502,8502,1,1305,1},
{8503,8503,1,1306,1},
{8504,8504,1,1307,1},
{8505,8505,1,1308,1},
{8506,8506,0,1309,0},
{8507,8507,1,1309,3},
{8508,8508,1,1312,1},
{8509,8510,1,1313,1},
{8511,8511,1,1314,1},
{8512,8512,1,1315,1},
{8513,8516,0,1316,0},
{8517,8518,1,1316,1},
{8519,8519,1,1317,1},
{8520,8520,1,1318,1},
{8521,8521,1,1319,1},
{8522,8523,0,1320,0},
{8524,8524,0,1320,0},
{8525,8525,0,1320,0},
{8526,8526,0,1320,0},
{8527,8527,0,1320,0},
{8528,8528,1,1320,3},
{8529,8529,1,1323,3},
{8530,8530,1,1326,4},
{8531,8531,1,1330,3},
{8532,8532,1,1333,3},
{8533,8533,1,1336,3},
{8534,8534,1,1339,3},
{8535,8535,1,1342,3},
{8536,8536,1,1345,3},
{8537,8537,1,1348,3},
{8538,8538,1,1351,3},
{8539,8539,1,1354,3},
{8540,8540,1,1357,3},
{8541,8541,1,1360,3},
{8542,8542,1,1363,3},
{8543,8543,1,1366,2},
{8544,8544,1,1368,1},
{8545,8545,1,1369,2},
{8546,8546,1,1371,3},
{8547,8547,1,1374,2},
{8548,8548,1,1376,1},
{8549,8549,1,1377,2},
{8550,8550,1,1379,3},
{8551,8551,1,1382,4},
{8552,8552,1,1386,2},
{8553,8553,1,1388,1},
{8554,8554,1,1389,2},
{8555,8555,1,1391,3},
{8556,8556,1,1394,1},
{8557,8557,1,1395,1},
{8558,8558,1,1396,1},
{8559,8559,1,1397,1},
{8560,8560,1,1398,1},
{8561,8561,1,1399,2},
{8562,8562,1,1401,3},
{8563,8563,1,1404,2},
{8564,8564,1,1406,1},
{8565,8565,1,1407,2},
{8566,8566,1,1409,3},
{8567,8567,1,1412,4},
{8568,8568,1,1416,2},
{8569,8569,1,1418,1},
{8570,8570,1,1419,2},
{8571,8571,1,1421,3},
{8572,8572,1,1424,1},
{8573,8573,1,1425,1},
{8574,8574,1,1426,1},
{8575,8575,1,1427,1},
{8576,8578,0,1428,0},
{8579,8579,4,1428,0},
{8580,8580,0,1428,0},
{8581,8584,0,1428,0},
{8585,8585,1,1428,3},
{8586,8587,0,1431,0},
{8588,8591,4,1431,0},
{8592,8682,0,1431,0},
{8683,8691,0,1431,0},
{8692,8703,0,1431,0},
{8704,8747,0,1431,0},
{8748,8748,1,1431,2},
{8749,8749,1,1433,3},
{8750,8750,0,1436,0},
{8751,8751,1,1436,2},
{8752,8752,1,1438,3},
{8753,8799,0,1441,0},
{8800,8800,5,1441,0},
{8801,8813,0,1441,0},
{8814,8815,5,1441,0},
{8816,8945,0,1441,0},
{8946,8959,0,1441,0},
{8960,8960,0,1441,0},
{8961,8961,0,1441,0},
{8962,9000,0,1441,0},
{9001,9001,1,1441,1},
{9002,9002,1,1442,1},
{9003,9082,0,1443,0},
{9083,9083,0,1443,0},
{9084,9084,0,1443,0},
{9085,9114,0,1443,0},
{9115,9166,0,1443,0},
{9167,9168,0,1443,0},
{9169,9179,0,1443,0},
{9180,9191,0,1443,0},
{9192,9192,0,1443,0},
{9193,9203,0,1443,0},
{9204,9210,0,1443,0},
{9211,9214,0,1443,0},
{9215,9215,0,1443,0},
{9216,9252,0,1443,0},
{9253,9254,0,1443,0},
{9255,9279,4,1443,0},
{9280,9290,0,1443,0},
{9291,9311,4,1443,0},
{9312,9312,1,1443,1},
{9313,9313,1,1444,1},
{9314,9314,1,1445,1},
{9315,9315,1,1446,1},
{9316,9316,1,1447,1},
{9317,9317,1,1448,1},
{9318,9318,1,1449,1},
{9319,9319,1,1450,1},
{9320,9320,1,1451,1},
{9321,9321,1,1452,2},
{9322,9322,1,1454,2},
{9323,9323,1,1456,2},
{9324,9324,1,1458,2},
{9325,9325,1,1460,2},
{9326,9326,1,1462,2},
{9327,9327,1,1464,2},
{9328,9328,1,1466,2},
{9329,9329,1,1468,2},
{9330,9330,1,1470,2},
{9331,9331,1,1472,2},
{9332,9332,6,1474,3},
{9333,9333,6,1477,3},
{9334,9334,6,1480,3},
{9335,9335,6,1483,3},
{9336,9336,6,1486,3},
{9337,9337,6,1489,3},
{9338,9338,6,1492,3},
{9339,9339,6,1495,3},
{9340,9340,6,1498,3},
{9341,9341,6,1501,4},
{9342,9342,6,1505,4},
{9343,9343,6,1509,4},
{9344,9344,6,1513,4},
{9345,9345,6,1517,4},
{9346,9346,6,1521,4},
{9347,9347,6,1525,4},
{9348,9348,6,1529,4},
{9349,9349,6,1533,4},
{9350,9350,6,1537,4},
{9351,9351,6,1541,4},
{9352,9371,4,1545,0},
{9372,9372,6,1545,3},
{9373,9373,6,1548,3},
{9374,9374,6,1551,3},
{9375,9375,6,1554,3},
{9376,9376,6,1557,3},
{9377,9377,6,1560,3},
{9378,9378,6,1563,3},
{9379,9379,6,1566,3},
{9380,9380,6,1569,3},
{9381,9381,6,1572,3},
{9382,9382,6,1575,3},
{9383,9383,6,1578,3},
{9384,9384,6,1581,3},
{9385,9385,6,1584,3},
{9386,9386,6,1587,3},
{9387,9387,6,1590,3},
{9388,9388,6,1593,3},
{9389,9389,6,1596,3},
{9390,9390,6,1599,3},
{9391,9391,6,1602,3},
{9392,9392,6,1605,3},
{9393,9393,6,1608,3},
{9394,9394,6,1611,3},
{9395,9395,6,1614,3},
{9396,9396,6,1617,3},
{9397,9397,6,1620,3},
{9398,9398,1,1623,1},
{9399,9399,1,1624,1},
{9400,9400,1,1625,1},
{9401,9401,1,1626,1},
{9402,9402,1,1627,1},
{9403,9403,1,1628,1},
{9404,9404,1,1629,1},
{9405,9405,1,1630,1},
{9406,9406,1,1631,1},
{9407,9407,1,1632,1},
{9408,9408,1,1633,1},
{9409,9409,1,1634,1},
{9410,9410,1,1635,1},
{9411,9411,1,1636,1},
{9412,9412,1,1637,1},
{9413,9413,1,1638,1},
{9414,9414,1,1639,1},
{9415,9415,1,1640,1},
{9416,9416,1,1641,1},
{9417,9417,1,1642,1},
{9418,9418,1,1643,1},
{9419,9419,1,1644,1},
{9420,9420,1,1645,1},
{9421,9421,1,1646,1},
{9422,9422,1,1647,1},
{9423,9423,1,1648,1},
{9424,9424,1,1649,1},
{9425,9425,1,1650,1},
{9426,9426,1,1651,1},
{9427,9427,1,1652,1},
{9428,9428,1,1653,1},
{9429,9429,1,1654,1},
{9430,9430,1,1655,1},
{9431,9431,1,1656,1},
{9432,9432,1,1657,1},
{9433,9433,1,1658,1},
{9434,9434,1,1659,1},
{9435,9435,1,1660,1},
{9436,9436,1,1661,1},
{9437,9437,1,1662,1},
{9438,9438,1,1663,1},
{9439,9439,1,1664,1},
{9440,9440,1,1665,1},
{9441,9441,1,1666,1},
{9442,9442,1,1667,1},
{9443,9443,1,1668,1},
{9444,9444,1,1669,1},
{9445,9445,1,1670,1},
{9446,9446,1,1671,1},
{9447,9447,1,1672,1},
{9448,9448,1,1673,1},
{9449,9449,1,1674,1},
{9450,9450,1,1675,1},
{9451,9470,0,1676,0},
{9471,9471,0,1676,0},
{9472,9621,0,1676,0},
{9622,9631,0,1676,0},
{9632,9711,0,1676,0},
{9712,9719,0,1676,0},
{9720,9727,0,1676,0},
{9728,9747,0,1676,0},
{9748,9749,0,1676,0},
{9750,9751,0,1676,0},
{9752,9752,0,1676,0},
{9753,9753,0,1676,0},
{9754,9839,0,1676,0},
{9840,9841,0,1676,0},
{9842,9853,0,1676,0},
{9854,9855,0,1676,0},
{9856,9865,0,1676,0},
{9866,9873,0,1676,0},
{9874,9884,0,1676,0},
{9885,9885,0,1676,0},
{9886,9887,0,1676,0},
{9888,9889,0,1676,0},
{9890,9905,0,1676,0},
{9906,9906,0,1676,0},
{9907,9916,0,1676,0},
{9917,9919,0,1676,0},
{9920,9923,0,1676,0},
{9924,9933,0,1676,0},
{9934,9934,0,1676,0},
{9935,9953,0,1676,0},
{9954,9954,0,1676,0},
{9955,9955,0,1676,0},
{9956,9959,0,1676,0},
{9960,9983,0,1676,0},
{9984,9984,0,1676,0},
{9985,9988,0,1676,0},
{9989,9989,0,1676,0},
{9990,9993,0,1676,0},
{9994,9995,0,1676,0},
{9996,10023,0,1676,0},
{10024,10024,0,1676,0},
{10025,10059,0,1676,0},
{10060,10060,0,1676,0},
{10061,10061,0,1676,0},
{10062,10062,0,1676,0},
{10063,10066,0,1676,0},
{10067,10069,0,1676,0},
{10070,10070,0,1676,0},
{10071,10071,0,1676,0},
{10072,10078,0,1676,0},
{10079,10080,0,1676,0},
{10081,10087,0,1676,0},
{10088,10101,0,1676,0},
{10102,10132,0,1676,0},
{10133,10135,0,1676,0},
{10136,10159,0,1676,0},
{10160,10160,0,1676,0},
{10161,10174,0,1676,0},
{10175,10175,0,1676,0},
{10176,10182,0,1676,0},
{10183,10186,0,1676,0},
{10187,10187,0,1676,0},
{10188,10188,0,1676,0},
{10189,10189,0,1676,0},
{10190,10191,0,1676,0},
{10192,10219,0,1676,0},
{10220,10223,0,1676,0},
{10224,10239,0,1676,0},
{10240,10495,0,1676,0},
{10496,10763,0,1676,0},
{10764,10764,1,1676,4},
{10765,10867,0,1680,0},
{10868,10868,6,1680,3},
{10869,10869,6,1683,2},
{10870,10870,6,1685,3},
{10871,10971,0,1688,0},
{10972,10972,1,1688,2},
{10973,11007,0,1690,0},
{11008,11021,0,1690,0},
{11022,11027,0,1690,0},
{11028,11034,0,1690,0},
{11035,11039,0,1690,0},
{11040,11043,0,1690,0},
{11044,11084,0,1690,0},
{11085,11087,0,1690,0},
{11088,11092,0,1690,0},
{11093,11097,0,1690,0},
{11098,11123,0,1690,0},
{11124,11125,4,1690,0},
{11126,11157,0,1690,0},
{11158,11158,4,1690,0},
{11159,11159,0,1690,0},
{11160,11193,0,1690,0},
{11194,11196,0,1690,0},
{11197,11208,0,1690,0},
{11209,11209,0,1690,0},
{11210,11217,0,1690,0},
{11218,11218,0,1690,0},
{11219,11243,0,1690,0},
{11244,11247,0,1690,0},
{11248,11262,0,1690,0},
{11263,11263,0,1690,0},
{11264,11264,1,1690,1},
{11265,11265,1,1691,1},
{11266,11266,1,1692,1},
{11267,11267,1,1693,1},
{11268,11268,1,1694,1},
{11269,11269,1,1695,1},
{11270,11270,1,1696,1},
{11271,11271,1,1697,1},
{11272,11272,1,1698,1},
{11273,11273,1,1699,1},
{11274,11274,1,1700,1},
{11275,11275,1,1701,1},
{11276,11276,1,1702,1},
{11277,11277,1,1703,1},
{11278,11278,1,1704,1},
{11279,11279,1,1705,1},
{11280,11280,1,1706,1},
{11281,11281,1,1707,1},
{11282,11282,1,1708,1},
{11283,11283,1,1709,1},
{11284,11284,1,1710,1},
{11285,11285,1,1711,1},
{11286,11286,1,1712,1},
{11287,11287,1,1713,1},
{11288,11288,1,1714,1},
{11289,11289,1,1715,1},
{11290,11290,1,1716,1},
{11291,11291,1,1717,1},
{11292,11292,1,1718,1},
{11293,11293,1,1719,1},
{11294,11294,1,1720,1},
{11295,11295,1,1721,1},
{11296,11296,1,1722,1},
{11297,11297,1,1723,1},
{11298,11298,1,1724,1},
{11299,11299,1,1725,1},
{11300,11300,1,1726,1},
{11301,11301,1,1727,1},
{11302,11302,1,1728,1},
{11303,11303,1,1729,1},
{11304,11304,1,1730,1},
{11305,11305,1,1731,1},
{11306,11306,1,1732,1},
{11307,11307,1,1733,1},
{11308,11308,1,1734,1},
{11309,11309,1,1735,1},
{11310,11310,1,1736,1},
{11311,11311,4,1737,0},
{11312,11358,0,1737,0},
{11359,11359,4,1737,0},
{11360,11360,1,1737,1},
{11361,11361,0,1738,0},
{11362,11362,1,1738,1},
{11363,11363,1,1739,1},
{11364,11364,1,1740,1},
{11365,11366,0,1741,0},
{11367,11367,1,1741,1},
{11368,11368,0,1742,0},
{11369,11369,1,1742,1},
{11370,11370,0,1743,0},
{11371,11371,1,1743,1},
{11372,11372,0,1744,0},
{11373,11373,1,1744,1},
{11374,11374,1,1745,1},
{11375,11375,1,1746,1},
{11376,11376,1,1747,1},
{11377,11377,0,1748,0},
{11378,11378,1,1748,1},
{11379,11379,0,1749,0},
{11380,11380,0,1749,0},
{11381,11381,1,1749,1},
{11382,11383,0,1750,0},
{11384,11387,0,1750,0},
{11388,11388,1,1750,1},
{11389,11389,1,1751,1},
{11390,11390,1,1752,1},
{11391,11391,1,1753,1},
{11392,11392,1,1754,1},
{11393,11393,0,1755,0},
{11394,11394,1,1755,1},
{11395,11395,0,1756,0},
{11396,11396,1,1756,1},
{11397,11397,0,1757,0},
{11398,11398,1,1757,1},
{11399,11399,0,1758,0},
{11400,11400,1,1758,1},
{11401,11401,0,1759,0},
{11402,11402,1,1759,1},
{11403,11403,0,1760,0},
{11404,11404,1,1760,1},
{11405,11405,0,1761,0},
{11406,11406,1,1761,1},
{11407,11407,0,1762,0},
{11408,11408,1,1762,1},
{11409,11409,0,1763,0},
{11410,11410,1,1763,1},
{11411,11411,0,1764,0},
{11412,11412,1,1764,1},
{11413,11413,0,1765,0},
{11414,11414,1,1765,1},
{11415,11415,0,1766,0},
{11416,11416,1,1766,1},
{11417,11417,0,1767,0},
{11418,11418,1,1767,1},
{11419,11419,0,1768,0},
{11420,11420,1,1768,1},
{11421,11421,0,1769,0},
{11422,11422,1,1769,1},
{11423,11423,0,1770,0},
{11424,11424,1,1770,1},
{11425,11425,0,1771,0},
{11426,11426,1,1771,1},
{11427,11427,0,1772,0},
{11428,11428,1,1772,1},
{11429,11429,0,1773,0},
{11430,11430,1,1773,1},
{11431,11431,0,1774,0},
{11432,11432,1,1774,1},
{11433,11433,0,1775,0},
{11434,11434,1,1775,1},
{11435,11435,0,1776,0},
{11436,11436,1,1776,1},
{11437,11437,0,1777,0},
{11438,11438,1,1777,1},
{11439,11439,0,1778,0},
{11440,11440,1,1778,1},
{11441,11441,0,1779,0},
{11442,11442,1,1779,1},
{11443,11443,0,1780,0},
{11444,11444,1,1780,1},
{11445,11445,0,1781,0},
{11446,11446,1,1781,1},
{11447,11447,0,1782,0},
{11448,11448,1,1782,1},
{11449,11449,0,1783,0},
{11450,11450,1,1783,1},
{11451,11451,0,1784,0},
{11452,11452,1,1784,1},
{11453,11453,0,1785,0},
{11454,11454,1,1785,1},
{11455,11455,0,1786,0},
{11456,11456,1,1786,1},
{11457,11457,0,1787,0},
{11458,11458,1,1787,1},
{11459,11459,0,1788,0},
{11460,11460,1,1788,1},
{11461,11461,0,1789,0},
{11462,11462,1,1789,1},
{11463,11463,0,1790,0},
{11464,11464,1,1790,1},
{11465,11465,0,1791,0},
{11466,11466,1,1791,1},
{11467,11467,0,1792,0},
{11468,11468,1,1792,1},
{11469,11469,0,1793,0},
{11470,11470,1,1793,1},
{11471,11471,0,1794,0},
{11472,11472,1,1794,1},
{11473,11473,0,1795,0},
{11474,11474,1,1795,1},
{11475,11475,0,1796,0},
{11476,11476,1,1796,1},
{11477,11477,0,1797,0},
{11478,11478,1,1797,1},
{11479,11479,0,1798,0},
{11480,11480,1,1798,1},
{11481,11481,0,1799,0},
{11482,11482,1,1799,1},
{11483,11483,0,1800,0},
{11484,11484,1,1800,1},
{11485,11485,0,1801,0},
{11486,11486,1,1801,1},
{11487,11487,0,1802,0},
{11488,11488,1,1802,1},
{11489,11489,0,1803,0},
{11490,11490,1,1803,1},
{11491,11492,0,1804,0},
{11493,11498,0,1804,0},
{11499,11499,1,1804,1},
{11500,11500,0,1805,0},
{11501,11501,1,1805,1},
{11502,11505,0,1806,0},
{11506,11506,1,1806,1},
{11507,11507,0,1807,0},
{11508,11512,4,1807,0},
{11513,11519,0,1807,0},
{11520,11557,0,1807,0},
{11558,11558,4,1807,0},
{11559,11559,0,1807,0},
{11560,11564,4,1807,0},
{11565,11565,0,1807,0},
{11566,11567,4,1807,0},
{11568,11621,0,1807,0},
{11622,11623,0,1807,0},
{11624,11630,4,1807,0},
{11631,11631,1,1807,1},
{11632,11632,0,1808,0},
{11633,11646,4,1808,0},
{11647,11647,0,1808,0},
{11648,11670,0,1808,0},
{11671,11679,4,1808,0},
{11680,11686,0,1808,0},
{11687,11687,4,1808,0},
{11688,11694,0,1808,0},
{11695,11695,4,1808,0},
{11696,11702,0,1808,0},
{11703,11703,4,1808,0},
{11704,11710,0,1808,0},
{11711,11711,4,1808,0},
{11712,11718,0,1808,0},
{11719,11719,4,1808,0},
{11720,11726,0,1808,0},
{11727,11727,4,1808,0},
{11728,11734,0,1808,0},
{11735,11735,4,1808,0},
{11736,11742,0,1808,0},
{11743,11743,4,1808,0},
{11744,11775,0,1808,0},
{11776,11799,0,1808,0},
{11800,11803,0,1808,0},
{11804,11805,0,1808,0},
{11806,11822,0,1808,0},
{11823,11823,0,1808,0},
{11824,11824,0,1808,0},
{11825,11825,0,1808,0},
{11826,11835,0,1808,0},
{11836,11842,0,1808,0},
{11843,11844,0,1808,0},
{11845,11849,0,1808,0},
{11850,11854,0,1808,0},
{11855,11855,0,1808,0},
{11856,11858,0,1808,0},
{11859,11903,4,1808,0},
{11904,11929,0,1808,0},
{11930,11930,4,1808,0},
{11931,11934,0,1808,0},
{11935,11935,1,1808,1},
{11936,12018,0,1809,0},
{12019,12019,1,1809,1},
{12020,12031,4,1810,0},
{12032,12032,1,1810,1},
{12033,12033,1,1811,1},
{12034,12034,1,1812,1},
{12035,12035,1,1813,1},
{12036,12036,1,1814,1},
{12037,12037,1,1815,1},
{12038,12038,1,1816,1},
{12039,12039,1,1817,1},
{12040,12040,1,1818,1},
{12041,12041,1,1819,1},
{12042,12042,1,1820,1},
{12043,12043,1,1821,1},
{12044,12044,1,1822,1},
{12045,12045,1,1823,1},
{12046,12046,1,1824,1},
{12047,12047,1,1825,1},
{12048,12048,1,1826,1},
{12049,12049,1,1827,1},
{12050,12050,1,1828,1},
{12051,12051,1,1829,1},
{12052,12052,1,1830,1},
{12053,12053,1,1831,1},
{12054,12054,1,1832,1},
{12055,12055,1,1833,1},
{12056,12056,1,1834,1},
{12057,12057,1,1835,1},
{12058,12058,1,1836,1},
{12059,12059,1,1837,1},
{12060,12060,1,1838,1},
{12061,12061,1,1839,1},
{12062,12062,1,1840,1},
{12063,12063,1,1841,1},
{12064,12064,1,1842,1},
{12065,12065,1,1843,1},
{12066,12066,1,1844,1},
{12067,12067,1,1845,1},
{12068,12068,1,1846,1},
{12069,12069,1,1847,1},
{12070,12070,1,1848,1},
{12071,12071,1,1849,1},
{12072,12072,1,1850,1},
{12073,12073,1,1851,1},
{12074,12074,1,1852,1},
{12075,12075,1,1853,1},
{12076,12076,1,1854,1},
{12077,12077,1,1855,1},
{12078,12078,1,1856,1},
{12079,12079,1,1857,1},
{12080,12080,1,1858,1},
{12081,12081,1,1859,1},
{12082,12082,1,1860,1},
{12083,12083,1,1861,1},
{12084,12084,1,1862,1},
{12085,12085,1,1863,1},
{12086,12086,1,1864,1},
{12087,12087,1,1865,1},
{12088,12088,1,1866,1},
{12089,12089,1,1867,1},
{12090,12090,1,1868,1},
{12091,12091,1,1869,1},
{12092,12092,1,1870,1},
{12093,12093,1,1871,1},
{12094,12094,1,1872,1},
{12095,12095,1,1873,1},
{12096,12096,1,1874,1},
{12097,12097,1,1875,1},
{12098,12098,1,1876,1},
{12099,12099,1,1877,1},
{12100,12100,1,1878,1},
{12101,12101,1,1879,1},
{12102,12102,1,1880,1},
{12103,12103,1,1881,1},
{12104,12104,1,1882,1},
{12105,12105,1,1883,1},
{12106,12106,1,1884,1},
{12107,12107,1,1885,1},
{12108,12108,1,1886,1},
{12109,12109,1,1887,1},
{12110,12110,1,1888,1},
{12111,12111,1,1889,1},
{12112,12112,1,1890,1},
{12113,12113,1,1891,1},
{12114,12114,1,1892,1},
{12115,12115,1,1893,1},
{12116,12116,1,1894,1},
{12117,12117,1,1895,1},
{12118,12118,1,1896,1},
{12119,12119,1,1897,1},
{12120,12120,1,1898,1},
{12121,12121,1,1899,1},
{12122,12122,1,1900,1},
{12123,12123,1,1901,1},
{12124,12124,1,1902,1},
{12125,12125,1,1903,1},
{12126,12126,1,1904,1},
{12127,12127,1,1905,1},
{12128,12128,1,1906,1},
{12129,12129,1,1907,1},
{12130,12130,1,1908,1},
{12131,12131,1,1909,1},
{12132,12132,1,1910,1},
{12133,12133,1,1911,1},
{12134,12134,1,1912,1},
{12135,12135,1,1913,1},
{12136,12136,1,1914,1},
{12137,12137,1,1915,1},
{12138,12138,1,1916,1},
{12139,12139,1,1917,1},
{12140,12140,1,1918,1},
{12141,12141,1,1919,1},
{12142,12142,1,1920,1},
{12143,12143,1,1921,1},
{12144,12144,1,1922,1},
{12145,12145,1,1923,1},
{12146,12146,1,1924,1},
{12147,12147,1,1925,1},
{12148,12148,1,1926,1},
{12149,12149,1,1927,1},
{12150,12150,1,1928,1},
{12151,12151,1,1929,1},
{12152,12152,1,1930,1},
{12153,12153,1,1931,1},
{12154,12154,1,1932,1},
{12155,12155,1,1933,1},
{12156,12156,1,1934,1},
{12157,12157,1,1935,1},
{12158,12158,1,1936,1},
{12159,12159,1,1937,1},
{12160,12160,1,1938,1},
{12161,12161,1,1939,1},
{12162,12162,1,1940,1},
{12163,12163,1,1941,1},
{12164,12164,1,1942,1},
{12165,12165,1,1943,1},
{12166,12166,1,1944,1},
{12167,12167,1,1945,1},
{12168,12168,1,1946,1},
{12169,12169,1,1947,1},
{12170,12170,1,1948,1},
{12171,12171,1,1949,1},
{12172,12172,1,1950,1},
{12173,12173,1,1951,1},
{12174,12174,1,1952,1},
{12175,12175,1,1953,1},
{12176,12176,1,1954,1},
{12177,12177,1,1955,1},
{12178,12178,1,1956,1},
{12179,12179,1,1957,1},
{12180,12180,1,1958,1},
{12181,12181,1,1959,1},
{12182,12182,1,1960,1},
{12183,12183,1,1961,1},
{12184,12184,1,1962,1},
{12185,12185,1,1963,1},
{12186,12186,1,1964,1},
{12187,12187,1,1965,1},
{12188,12188,1,1966,1},
{12189,12189,1,1967,1},
{12190,12190,1,1968,1},
{12191,12191,1,1969,1},
{12192,12192,1,1970,1},
{12193,12193,1,1971,1},
{12194,12194,1,1972,1},
{12195,12195,1,1973,1},
{12196,12196,1,1974,1},
{12197,12197,1,1975,1},
{12198,12198,1,1976,1},
{12199,12199,1,1977,1},
{12200,12200,1,1978,1},
{12201,12201,1,1979,1},
{12202,12202,1,1980,1},
{12203,12203,1,1981,1},
{12204,12204,1,1982,1},
{12205,12205,1,1983,1},
{12206,12206,1,1984,1},
{12207,12207,1,1985,1},
{12208,12208,1,1986,1},
{12209,12209,1,1987,1},
{12210,12210,1,1988,1},
{12211,12211,1,1989,1},
{12212,12212,1,1990,1},
{12213,12213,1,1991,1},
{12214,12214,1,1992,1},
{12215,12215,1,1993,1},
{12216,12216,1,1994,1},
{12217,12217,1,1995,1},
{12218,12218,1,1996,1},
{12219,12219,1,1997,1},
{12220,12220,1,1998,1},
{12221,12221,1,1999,1},
{12222,12222,1,2000,1},
{12223,12223,1,2001,1},
{12224,12224,1,2002,1},
{12225,12225,1,2003,1},
{12226,12226,1,2004,1},
{12227,12227,1,2005,1},
{12228,12228,1,2006,1},
{12229,12229,1,2007,1},
{12230,12230,1,2008,1},
{12231,12231,1,2009,1},
{12232,12232,1,2010,1},
{12233,12233,1,2011,1},
{12234,12234,1,2012,1},
{12235,12235,1,2013,1},
{12236,12236,1,2014,1},
{12237,12237,1,2015,1},
{12238,12238,1,2016,1},
{12239,12239,1,2017,1},
{12240,12240,1,2018,1},
{12241,12241,1,2019,1},
{12242,12242,1,2020,1},
{12243,12243,1,2021,1},
{12244,12244,1,2022,1},
{12245,12245,1,2023,1},
{12246,12271,4,2024,0},
{12272,12283,4,2024,0},
{12284,12287,4,2024,0},
{12288,12288,6,2024,1},
{12289,12289,0,2025,0},
{12290,12290,1,2025,1},
{12291,12292,0,2026,0},
{12293,12295,0,2026,0},
{12296,12329,0,2026,0},
{12330,12333,0,2026,0},
{12334,12341,0,2026,0},
{12342,12342,1,2026,1},
{12343,12343,0,2027,0},
{12344,12344,1,2027,1},
{12345,12345,1,2028,1},
{12346,12346,1,2029,1},
{12347,12347,0,2030,0},
{12348,12348,0,2030,0},
{12349,12349,0,2030,0},
{12350,12350,0,2030,0},
{12351,12351,0,2030,0},
{12352,12352,4,2030,0},
{12353,12436,0,2030,0},
{12437,12438,0,2030,0},
{12439,12440,4,2030,0},
{12441,12442,0,2030,0},
{12443,12443,6,2030,2},
{12444,12444,6,2032,2},
{12445,12446,0,2034,0},
{12447,12447,1,2034,2},
{12448,12448,0,2036,0},
{12449,12542,0,2036,0},
{12543,12543,1,2036,2},
{12544,12548,4,2038,0},
{12549,12588,0,2038,0},
{12589,12589,0,2038,0},
{12590,12590,0,2038,0},
{12591,12591,0,2038,0},
{12592,12592,4,2038,0},
{12593,12593,1,2038,1},
{12594,12594,1,2039,1},
{12595,12595,1,2040,1},
{12596,12596,1,2041,1},
{12597,12597,1,2042,1},
{12598,12598,1,2043,1},
{12599,12599,1,2044,1},
{12600,12600,1,2045,1},
{12601,12601,1,2046,1},
{12602,12602,1,2047,1},
{12603,12603,1,2048,1},
{12604,12604,1,2049,1},
{12605,12605,1,2050,1},
{12606,12606,1,2051,1},
{12607,12607,1,2052,1},
{12608,12608,1,2053,1},
{12609,12609,1,2054,1},
{12610,12610,1,2055,1},
{12611,12611,1,2056,1},
{12612,12612,1,2057,1},
{12613,12613,1,2058,1},
{12614,12614,1,2059,1},
{12615,12615,1,2060,1},
{12616,12616,1,2061,1},
{12617,12617,1,2062,1},
{12618,12618,1,2063,1},
{12619,12619,1,2064,1},
{12620,12620,1,2065,1},
{12621,12621,1,2066,1},
{12622,12622,1,2067,1},
{12623,12623,1,2068,1},
{12624,12624,1,2069,1},
{12625,12625,1,2070,1},
{12626,12626,1,2071,1},
{12627,12627,1,2072,1},
{12628,12628,1,2073,1},
{12629,12629,1,2074,1},
{12630,12630,1,2075,1},
{12631,12631,1,2076,1},
{12632,12632,1,2077,1},
{12633,12633,1,2078,1},
{12634,12634,1,2079,1},
{12635,12635,1,2080,1},
{12636,12636,1,2081,1},
{12637,12637,1,2082,1},
{12638,12638,1,2083,1},
{12639,12639,1,2084,1},
{12640,12640,1,2085,1},
{12641,12641,1,2086,1},
{12642,12642,1,2087,1},
{12643,12643,1,2088,1},
{12644,12644,4,2089,0},
{12645,12645,1,2089,1},
{12646,12646,1,2090,1},
{12647,12647,1,2091,1},
{12648,12648,1,2092,1},
{12649,12649,1,2093,1},
{12650,12650,1,2094,1},
{12651,12651,1,2095,1},
{12652,12652,1,2096,1},
{12653,12653,1,2097,1},
{12654,12654,1,2098,1},
{12655,12655,1,2099,1},
{12656,12656,1,2100,1},
{12657,12657,1,2101,1},
{12658,12658,1,2102,1},
{12659,12659,1,2103,1},
{12660,12660,1,2104,1},
{12661,12661,1,2105,1},
{12662,12662,1,2106,1},
{12663,12663,1,2107,1},
{12664,12664,1,2108,1},
{12665,12665,1,2109,1},
{12666,12666,1,2110,1},
{12667,12667,1,2111,1},
{12668,12668,1,2112,1},
{12669,12669,1,2113,1},
{12670,12670,1,2114,1},
{12671,12671,1,2115,1},
{12672,12672,1,2116,1},
{12673,12673,1,2117,1},
{12674,12674,1,2118,1},
{12675,12675,1,2119,1},
{12676,12676,1,2120,1},
{12677,12677,1,2121,1},
{12678,12678,1,2122,1},
{12679,12679,1,2123,1},
{12680,12680,1,2124,1},
{12681,12681,1,2125,1},
{12682,12682,1,2126,1},
{12683,12683,1,2127,1},
{12684,12684,1,2128,1},
{12685,12685,1,2129,1},
{12686,12686,1,2130,1},
{12687,12687,4,2131,0},
{12688,12689,0,2131,0},
{12690,12690,1,2131,1},
{12691,12691,1,2132,1},
{12692,12692,1,2133,1},
{12693,12693,1,2134,1},
{12694,12694,1,2135,1},
{12695,12695,1,2136,1},
{12696,12696,1,2137,1},
{12697,12697,1,2138,1},
{12698,12698,1,2139,1},
{12699,12699,1,2140,1},
{12700,12700,1,2141,1},
{12701,12701,1,2142,1},
{12702,12702,1,2143,1},
{12703,12703,1,2144,1},
{12704,12727,0,2145,0},
{12728,12730,0,2145,0},
{12731,12735,0,2145,0},
{12736,12751,0,2145,0},
{12752,12771,0,2145,0},
{12772,12783,4,2145,0},
{12784,12799,0,2145,0},
{12800,12800,6,2145,3},
{12801,12801,6,2148,3},
{12802,12802,6,2151,3},
{12803,12803,6,2154,3},
{12804,12804,6,2157,3},
{12805,12805,6,2160,3},
{12806,12806,6,2163,3},
{12807,12807,6,2166,3},
{12808,12808,6,2169,3},
{12809,12809,6,2172,3},
{12810,12810,6,2175,3},
{12811,12811,6,2178,3},
{12812,12812,6,2181,3},
{12813,12813,6,2184,3},
{12814,12814,6,2187,3},
{12815,12815,6,2190,3},
{12816,12816,6,2193,3},
{12817,12817,6,2196,3},
{12818,12818,6,2199,3},
{12819,12819,6,2202,3},
{12820,12820,6,2205,3},
{12821,12821,6,2208,3},
{12822,12822,6,2211,3},
{12823,12823,6,2214,3},
{12824,12824,6,2217,3},
{12825,12825,6,2220,3},
{12826,12826,6,2223,3},
{12827,12827,6,2226,3},
{12828,12828,6,2229,3},
{12829,12829,6,2232,4},
{12830,12830,6,2236,4},
{12831,12831,4,2240,0},
{12832,12832,6,2240,3},
{12833,12833,6,2243,3},
{12834,12834,6,2246,3},
{12835,12835,6,2249,3},
{12836,12836,6,2252,3},
{12837,12837,6,2255,3},
{12838,12838,6,2258,3},
{12839,12839,6,2261,3},
{12840,12840,6,2264,3},
{12841,12841,6,2267,3},
{12842,12842,6,2270,3},
{12843,12843,6,2273,3},
{12844,12844,6,2276,3},
{12845,12845,6,2279,3},
{12846,12846,6,2282,3},
{12847,12847,6,2285,3},
{12848,12848,6,2288,3},
{12849,12849,6,2291,3},
{12850,12850,6,2294,3},
{12851,12851,6,2297,3},
{12852,12852,6,2300,3},
{12853,12853,6,2303,3},
{12854,12854,6,2306,3},
{12855,12855,6,2309,3},
{12856,12856,6,2312,3},
{12857,12857,6,2315,3},
{12858,12858,6,2318,3},
{12859,12859,6,2321,3},
{12860,12860,6,2324,3},
{12861,12861,6,2327,3},
{12862,12862,6,2330,3},
{12863,12863,6,2333,3},
{12864,12864,6,2336,3},
{12865,12865,6,2339,3},
{12866,12866,6,2342,3},
{12867,12867,6,2345,3},
{12868,12868,1,2348,1},
{12869,12869,1,2349,1},
{12870,12870,1,2350,1},
{12871,12871,1,2351,1},
{12872,12879,0,2352,0},
{12880,12880,1,2352,3},
{12881,12881,1,2355,2},
{12882,12882,1,2357,2},
{12883,12883,1,2359,2},
{12884,12884,1,2361,2},
{12885,12885,1,2363,2},
{12886,12886,1,2365,2},
{12887,12887,1,2367,2},
{12888,12888,1,2369,2},
{12889,12889,1,2371,2},
{12890,12890,1,2373,2},
{12891,12891,1,2375,2},
{12892,12892,1,2377,2},
{12893,12893,1,2379,2},
{12894,12894,1,2381,2},
{12895,12895,1,2383,2},
{12896,12896,1,2385,1},
{12897,12897,1,2386,1},
{12898,12898,1,2387,1},
{12899,12899,1,2388,1},
{12900,12900,1,2389,1},
{12901,12901,1,2390,1},
{12902,12902,1,2391,1},
{12903,12903,1,2392,1},
{12904,12904,1,2393,1},
{12905,12905,1,2394,1},
{12906,12906,1,2395,1},
{12907,12907,1,2396,1},
{12908,12908,1,2397,1},
{12909,12909,1,2398,1},
{12910,12910,1,2399,1},
{12911,12911,1,2400,1},
{12912,12912,1,2401,1},
{12913,12913,1,2402,1},
{12914,12914,1,2403,1},
{12915,12915,1,2404,1},
{12916,12916,1,2405,1},
{12917,12917,1,2406,1},
{12918,12918,1,2407,1},
{12919,12919,1,2408,1},
{12920,12920,1,2409,1},
{12921,12921,1,2410,1},
{12922,12922,1,2411,1},
{12923,12923,1,2412,1},
{12924,12924,1,2413,2},
{12925,12925,1,2415,2},
{12926,12926,1,2417,1},
{12927,12927,0,2418,0},
{12928,12928,1,2418,1},
{12929,12929,1,2419,1},
{12930,12930,1,2420,1},
{12931,12931,1,2421,1},
{12932,12932,1,2422,1},
{12933,12933,1,2423,1},
{12934,12934,1,2424,1},
{12935,12935,1,2425,1},
{12936,12936,1,2426,1},
{12937,12937,1,2427,1},
{12938,12938,1,2428,1},
{12939,12939,1,2429,1},
{12940,12940,1,2430,1},
{12941,12941,1,2431,1},
{12942,12942,1,2432,1},
{12943,12943,1,2433,1},
{12944,12944,1,2434,1},
{12945,12945,1,2435,1},
{12946,12946,1,2436,1},
{12947,12947,1,2437,1},
{12948,12948,1,2438,1},
{12949,12949,1,2439,1},
{12950,12950,1,2440,1},
{12951,12951,1,2441,1},
{12952,12952,1,2442,1},
{12953,12953,1,2443,1},
{12954,12954,1,2444,1},
{12955,12955,1,2445,1},
{12956,12956,1,2446,1},
{12957,12957,1,2447,1},
{12958,12958,1,2448,1},
{12959,12959,1,2449,1},
{12960,12960,1,2450,1},
{12961,12961,1,2451,1},
{12962,12962,1,2452,1},
{12963,12963,1,2453,1},
{12964,12964,1,2454,1},
{12965,12965,1,2455,1},
{12966,12966,1,2456,1},
{12967,12967,1,2457,1},
{12968,12968,1,2458,1},
{12969,12969,1,2459,1},
{12970,12970,1,2460,1},
{12971,12971,1,2461,1},
{12972,12972,1,2462,1},
{12973,12973,1,2463,1},
{12974,12974,1,2464,1},
{12975,12975,1,2465,1},
{12976,12976,1,2466,1},
{12977,12977,1,2467,2},
{12978,12978,1,2469,2},
{12979,12979,1,2471,2},
{12980,12980,1,2473,2},
{12981,12981,1,2475,2},
{12982,12982,1,2477,2},
{12983,12983,1,2479,2},
{12984,12984,1,2481,2},
{12985,12985,1,2483,2},
{12986,12986,1,2485,2},
{12987,12987,1,2487,2},
{12988,12988,1,2489,2},
{12989,12989,1,2491,2},
{12990,12990,1,2493,2},
{12991,12991,1,2495,2},
{12992,12992,1,2497,2},
{12993,12993,1,2499,2},
{12994,12994,1,2501,2},
{12995,12995,1,2503,2},
{12996,12996,1,2505,2},
{12997,12997,1,2507,2},
{12998,12998,1,2509,2},
{12999,12999,1,2511,2},
{13000,13000,1,2513,2},
{13001,13001,1,2515,3},
{13002,13002,1,2518,3},
{13003,13003,1,2521,3},
{13004,13004,1,2524,2},
{13005,13005,1,2526,3},
{13006,13006,1,2529,2},
{13007,13007,1,2531,3},
{13008,13008,1,2534,1},
{13009,13009,1,2535,1},
{13010,13010,1,2536,1},
{13011,13011,1,2537,1},
{13012,13012,1,2538,1},
{13013,13013,1,2539,1},
{13014,13014,1,2540,1},
{13015,13015,1,2541,1},
{13016,13016,1,2542,1},
{13017,13017,1,2543,1},
{13018,13018,1,2544,1},
{13019,13019,1,2545,1},
{13020,13020,1,2546,1},
{13021,13021,1,2547,1},
{13022,13022,1,2548,1},
{13023,13023,1,2549,1},
{13024,13024,1,2550,1},
{13025,13025,1,2551,1},
{13026,13026,1,2552,1},
{13027,13027,1,2553,1},
{13028,13028,1,2554,1},
{13029,13029,1,2555,1},
{13030,13030,1,2556,1},
{13031,13031,1,2557,1},
{13032,13032,1,2558,1},
{13033,13033,1,2559,1},
{13034,13034,1,2560,1},
{13035,13035,1,2561,1},
{13036,13036,1,2562,1},
{13037,13037,1,2563,1},
{13038,13038,1,2564,1},
{13039,13039,1,2565,1},
{13040,13040,1,2566,1},
{13041,13041,1,2567,1},
{13042,13042,1,2568,1},
{13043,13043,1,2569,1},
{13044,13044,1,2570,1},
{13045,13045,1,2571,1},
{13046,13046,1,2572,1},
{13047,13047,1,2573,1},
{13048,13048,1,2574,1},
{13049,13049,1,2575,1},
{13050,13050,1,2576,1},
{13051,13051,1,2577,1},
{13052,13052,1,2578,1},
{13053,13053,1,2579,1},
{13054,13054,1,2580,1},
{13055,13055,1,2581,2},
{13056,13056,1,2583,4},
{13057,13057,1,2587,4},
{13058,13058,1,2591,4},
{13059,13059,1,2595,3},
{13060,13060,1,2598,4},
{13061,13061,1,2602,3},
{13062,13062,1,2605,3},
{13063,13063,1,2608,5},
{13064,13064,1,2613,4},
{13065,13065,1,2617,3},
{13066,13066,1,2620,3},
{13067,13067,1,2623,3},
{13068,13068,1,2626,4},
{13069,13069,1,2630,4},
{13070,13070,1,2634,3},
{13071,13071,1,2637,3},
{13072,13072,1,2640,2},
{13073,13073,1,2642,3},
{13074,13074,1,2645,4},
{13075,13075,1,2649,4},
{13076,13076,1,2653,2},
{13077,13077,1,2655,5},
{13078,13078,1,2660,6},
{13079,13079,1,2666,5},
{13080,13080,1,2671,3},
{13081,13081,1,2674,5},
{13082,13082,1,2679,5},
{13083,13083,1,2684,4},
{13084,13084,1,2688,3},
{13085,13085,1,2691,3},
{13086,13086,1,2694,3},
{13087,13087,1,2697,4},
{13088,13088,1,2701,5},
{13089,13089,1,2706,4},
{13090,13090,1,2710,3},
{13091,13091,1,2713,3},
{13092,13092,1,2716,3},
{13093,13093,1,2719,2},
{13094,13094,1,2721,2},
{13095,13095,1,2723,2},
{13096,13096,1,2725,2},
{13097,13097,1,2727,3},
{13098,13098,1,2730,3},
{13099,13099,1,2733,5},
{13100,13100,1,2738,3},
{13101,13101,1,2741,4},
{13102,13102,1,2745,5},
{13103,13103,1,2750,3},
{13104,13104,1,2753,2},
{13105,13105,1,2755,2},
{13106,13106,1,2757,5},
{13107,13107,1,2762,4},
{13108,13108,1,2766,5},
{13109,13109,1,2771,3},
{13110,13110,1,2774,5},
{13111,13111,1,2779,2},
{13112,13112,1,2781,3},
{13113,13113,1,2784,3},
{13114,13114,1,2787,3},
{13115,13115,1,2790,3},
{13116,13116,1,2793,3},
{13117,13117,1,2796,4},
{13118,13118,1,2800,3},
{13119,13119,1,2803,2},
{13120,13120,1,2805,3},
{13121,13121,1,2808,3},
{13122,13122,1,2811,3},
{13123,13123,1,2814,4},
{13124,13124,1,2818,3},
{13125,13125,1,2821,3},
{13126,13126,1,2824,3},
{13127,13127,1,2827,5},
{13128,13128,1,2832,4},
{13129,13129,1,2836,2},
{13130,13130,1,2838,5},
{13131,13131,1,2843,2},
{13132,13132,1,2845,4},
{13133,13133,1,2849,4},
{13134,13134,1,2853,3},
{13135,13135,1,2856,3},
{13136,13136,1,2859,3},
{13137,13137,1,2862,4},
{13138,13138,1,2866,2},
{13139,13139,1,2868,3},
{13140,13140,1,2871,4},
{13141,13141,1,2875,2},
{13142,13142,1,2877,5},
{13143,13143,1,2882,3},
{13144,13144,1,2885,2},
{13145,13145,1,2887,2},
{13146,13146,1,2889,2},
{13147,13147,1,2891,2},
{13148,13148,1,2893,2},
{13149,13149,1,2895,2},
{13150,13150,1,2897,2},
{13151,13151,1,2899,2},
{13152,13152,1,2901,2},
{13153,13153,1,2903,2},
{13154,13154,1,2905,3},
{13155,13155,1,2908,3},
{13156,13156,1,2911,3},
{13157,13157,1,2914,3},
{13158,13158,1,2917,3},
{13159,13159,1,2920,3},
{13160,13160,1,2923,3},
{13161,13161,1,2926,3},
{13162,13162,1,2929,3},
{13163,13163,1,2932,3},
{13164,13164,1,2935,3},
{13165,13165,1,2938,3},
{13166,13166,1,2941,3},
{13167,13167,1,2944,3},
{13168,13168,1,2947,3},
{13169,13169,1,2950,3},
{13170,13170,1,2953,2},
{13171,13171,1,2955,2},
{13172,13172,1,2957,3},
{13173,13173,1,2960,2},
{13174,13174,1,2962,2},
{13175,13175,1,2964,2},
{13176,13176,1,2966,3},
{13177,13177,1,2969,3},
{13178,13178,1,2972,2},
{13179,13179,1,2974,2},
{13180,13180,1,2976,2},
{13181,13181,1,2978,2},
{13182,13182,1,2980,2},
{13183,13183,1,2982,4},
{13184,13184,1,2986,2},
{13185,13185,1,2988,2},
{13186,13186,1,2990,2},
{13187,13187,1,2992,2},
{13188,13188,1,2994,2},
{13189,13189,1,2996,2},
{13190,13190,1,2998,2},
{13191,13191,1,3000,2},
{13192,13192,1,3002,3},
{13193,13193,1,3005,4},
{13194,13194,1,3009,2},
{13195,13195,1,3011,2},
{13196,13196,1,3013,2},
{13197,13197,1,3015,2},
{13198,13198,1,3017,2},
{13199,13199,1,3019,2},
{13200,13200,1,3021,2},
{13201,13201,1,3023,3},
{13202,13202,1,3026,3},
{13203,13203,1,3029,3},
{13204,13204,1,3032,3},
{13205,13205,1,3035,2},
{13206,13206,1,3037,2},
{13207,13207,1,3039,2},
{13208,13208,1,3041,2},
{13209,13209,1,3043,2},
{13210,13210,1,3045,2},
{13211,13211,1,3047,2},
{13212,13212,1,3049,2},
{13213,13213,1,3051,2},
{13214,13214,1,3053,2},
{13215,13215,1,3055,3},
{13216,13216,1,3058,3},
{13217,13217,1,3061,2},
{13218,13218,1,3063,3},
{13219,13219,1,3066,3},
{13220,13220,1,3069,3},
{13221,13221,1,3072,2},
{13222,13222,1,3074,3},
{13223,13223,1,3077,3},
{13224,13224,1,3080,4},
{13225,13225,1,3084,2},
{13226,13226,1,3086,3},
{13227,13227,1,3089,3},
{13228,13228,1,3092,3},
{13229,13229,1,3095,3},
{13230,13230,1,3098,5},
{13231,13231,1,3103,6},
{13232,13232,1,3109,2},
{13233,13233,1,3111,2},
{13234,13234,1,3113,2},
{13235,13235,1,3115,2},
{13236,13236,1,3117,2},
{13237,13237,1,3119,2},
{13238,13238,1,3121,2},
{13239,13239,1,3123,2},
{13240,13240,1,3125,2},
{13241,13241,1,3127,2},
{13242,13242,1,3129,2},
{13243,13243,1,3131,2},
{13244,13244,1,3133,2},
{13245,13245,1,3135,2},
{13246,13246,1,3137,2},
{13247,13247,1,3139,2},
{13248,13248,1,3141,2},
{13249,13249,1,3143,2},
{13250,13250,4,3145,0},
{13251,13251,1,3145,2},
{13252,13252,1,3147,2},
{13253,13253,1,3149,2},
{13254,13254,1,3151,4},
{13255,13255,4,3155,0},
{13256,13256,1,3155,2},
{13257,13257,1,3157,2},
{13258,13258,1,3159,2},
{13259,13259,1,3161,2},
{13260,13260,1,3163,2},
{13261,13261,1,3165,2},
{13262,13262,1,3167,2},
{13263,13263,1,3169,2},
{13264,13264,1,3171,2},
{13265,13265,1,3173,2},
{13266,13266,1,3175,3},
{13267,13267,1,3178,2},
{13268,13268,1,3180,2},
{13269,13269,1,3182,3},
{13270,13270,1,3185,3},
{13271,13271,1,3188,2},
{13272,13272,4,3190,0},
{13273,13273,1,3190,3},
{13274,13274,1,3193,2},
{13275,13275,1,3195,2},
{13276,13276,1,3197,2},
{13277,13277,1,3199,2},
{13278,13278,1,3201,3},
{13279,13279,1,3204,3},
{13280,13280,1,3207,2},
{13281,13281,1,3209,2},
{13282,13282,1,3211,2},
{13283,13283,1,3213,2},
{13284,13284,1,3215,2},
{13285,13285,1,3217,2},
{13286,13286,1,3219,2},
{13287,13287,1,3221,2},
{13288,13288,1,3223,2},
{13289,13289,1,3225,3},
{13290,13290,1,3228,3},
{13291,13291,1,3231,3},
{13292,13292,1,3234,3},
{13293,13293,1,3237,3},
{13294,13294,1,3240,3},
{13295,13295,1,3243,3},
{13296,13296,1,3246,3},
{13297,13297,1,3249,3},
{13298,13298,1,3252,3},
{13299,13299,1,3255,3},
{13300,13300,1,3258,3},
{13301,13301,1,3261,3},
{13302,13302,1,3264,3},
{13303,13303,1,3267,3},
{13304,13304,1,3270,3},
{13305,13305,1,3273,3},
{13306,13306,1,3276,3},
{13307,13307,1,3279,3},
{13308,13308,1,3282,3},
{13309,13309,1,3285,3},
{13310,13310,1,3288,3},
{13311,13311,1,3291,3},
{13312,19893,0,3294,0},
{19894,19903,0,3294,0},
{19904,19967,0,3294,0},
{19968,40869,0,3294,0},
{40870,40891,0,3294,0},
{40892,40899,0,3294,0},
{40900,40907,0,3294,0},
{40908,40908,0,3294,0},
{40909,40917,0,3294,0},
{40918,40938,0,3294,0},
{40939,40943,0,3294,0},
{40944,40956,0,3294,0},
{40957,40959,4,3294,0},
{40960,42124,0,3294,0},
{42125,42127,4,3294,0},
{42128,42145,0,3294,0},
{42146,42147,0,3294,0},
{42148,42163,0,3294,0},
{42164,42164,0,3294,0},
{42165,42176,0,3294,0},
{42177,42177,0,3294,0},
{42178,42180,0,3294,0},
{42181,42181,0,3294,0},
{42182,42182,0,3294,0},
{42183,42191,4,3294,0},
{42192,42237,0,3294,0},
{42238,42239,0,3294,0},
{42240,42508,0,3294,0},
{42509,42511,0,3294,0},
{42512,42539,0,3294,0},
{42540,42559,4,3294,0},
{42560,42560,1,3294,1},
{42561,42561,0,3295,0},
{42562,42562,1,3295,1},
{42563,42563,0,3296,0},
{42564,42564,1,3296,1},
{42565,42565,0,3297,0},
{42566,42566,1,3297,1},
{42567,42567,0,3298,0},
{42568,42568,1,3298,1},
{42569,42569,0,3299,0},
{42570,42570,1,3299,1},
{42571,42571,0,3300,0},
{42572,42572,1,3300,1},
{42573,42573,0,3301,0},
{42574,42574,1,3301,1},
{42575,42575,0,3302,0},
{42576,42576,1,3302,1},
{42577,42577,0,3303,0},
{42578,42578,1,3303,1},
{42579,42579,0,3304,0},
{42580,42580,1,3304,1},
{42581,42581,0,3305,0},
{42582,42582,1,3305,1},
{42583,42583,0,3306,0},
{42584,42584,1,3306,1},
{42585,42585,0,3307,0},
{42586,42586,1,3307,1},
{42587,42587,0,3308,0},
{42588,42588,1,3308,1},
{42589,42589,0,3309,0},
{42590,42590,1,3309,1},
{42591,42591,0,3310,0},
{42592,42592,1,3310,1},
{42593,42593,0,3311,0},
{42594,42594,1,3311,1},
{42595,42595,0,3312,0},
{42596,42596,1,3312,1},
{42597,42597,0,3313,0},
{42598,42598,1,3313,1},
{42599,42599,0,3314,0},
{42600,42600,1,3314,1},
{42601,42601,0,3315,0},
{42602,42602,1,3315,1},
{42603,42603,0,3316,0},
{42604,42604,1,3316,1},
{42605,42607,0,3317,0},
{42608,42611,0,3317,0},
{42612,42619,0,3317,0},
{42620,42621,0,3317,0},
{42622,42622,0,3317,0},
{42623,42623,0,3317,0},
{42624,42624,1,3317,1},
{42625,42625,0,3318,0},
{42626,42626,1,3318,1},
{42627,42627,0,3319,0},
{42628,42628,1,3319,1},
{42629,42629,0,3320,0},
{42630,42630,1,3320,1},
{42631,42631,0,3321,0},
{42632,42632,1,3321,1},
{42633,42633,0,3322,0},
{42634,42634,1,3322,1},
{42635,42635,0,3323,0},
{42636,42636,1,3323,1},
{42637,42637,0,3324,0},
{42638,42638,1,3324,1},
{42639,42639,0,3325,0},
{42640,42640,1,3325,1},
{42641,42641,0,3326,0},
{42642,42642,1,3326,1},
{42643,42643,0,3327,0},
{42644,42644,1,3327,1},
{42645,42645,0,3328,0},
{42646,42646,1,3328,1},
{42647,42647,0,3329,0},
{42648,42648,1,3329,1},
{42649,42649,0,3330,0},
{42650,42650,1,3330,1},
{42651,42651,0,3331,0},
{42652,42652,1,3331,1},
{42653,42653,1,3332,1},
{42654,42654,0,3333,0},
{42655,42655,0,3333,0},
{42656,42725,0,3333,0},
{42726,42735,0,3333,0},
{42736,42737,0,3333,0},
{42738,42743,0,3333,0},
{42744,42751,4,3333,0},
{42752,42774,0,3333,0},
{42775,42778,0,3333,0},
{42779,42783,0,3333,0},
{42784,42785,0,3333,0},
{42786,42786,1,3333,1},
{42787,42787,0,3334,0},
{42788,42788,1,3334,1},
{42789,42789,0,3335,0},
{42790,42790,1,3335,1},
{42791,42791,0,3336,0},
{42792,42792,1,3336,1},
{42793,42793,0,3337,0},
{42794,42794,1,3337,1},
{42795,42795,0,3338,0},
{42796,42796,1,3338,1},
{42797,42797,0,3339,0},
{42798,42798,1,3339,1},
{42799,42801,0,3340,0},
{42802,42802,1,3340,1},
{42803,42803,0,3341,0},
{42804,42804,1,3341,1},
{42805,42805,0,3342,0},
{42806,42806,1,3342,1},
{42807,42807,0,3343,0},
{42808,42808,1,3343,1},
{42809,42809,0,3344,0},
{42810,42810,1,3344,1},
{42811,42811,0,3345,0},
{42812,42812,1,3345,1},
{42813,42813,0,3346,0},
{42814,42814,1,3346,1},
{42815,42815,0,3347,0},
{42816,42816,1,3347,1},
{42817,42817,0,3348,0},
{42818,42818,1,3348,1},
{42819,42819,0,3349,0},
{42820,42820,1,3349,1},
{42821,42821,0,3350,0},
{42822,42822,1,3350,1},
{42823,42823,0,3351,0},
{42824,42824,1,3351,1},
{42825,42825,0,3352,0},
{42826,42826,1,3352,1},
{42827,42827,0,3353,0},
{42828,42828,1,3353,1},
{42829,42829,0,3354,0},
{42830,42830,1,3354,1},
{42831,42831,0,3355,0},
{42832,42832,1,3355,1},
{42833,42833,0,3356,0},
{42834,42834,1,3356,1},
{42835,42835,0,3357,0},
{42836,42836,1,3357,1},
{42837,42837,0,3358,0},
{42838,42838,1,3358,1},
{42839,42839,0,3359,0},
{42840,42840,1,3359,1},
{42841,42841,0,3360,0},
{42842,42842,1,3360,1},
{42843,42843,0,3361,0},
{42844,42844,1,3361,1},
{42845,42845,0,3362,0},
{42846,42846,1,3362,1},
{42847,42847,0,3363,0},
{42848,42848,1,3363,1},
{42849,42849,0,3364,0},
{42850,42850,1,3364,1},
{42851,42851,0,3365,0},
{42852,42852,1,3365,1},
{42853,42853,0,3366,0},
{42854,42854,1,3366,1},
{42855,42855,0,3367,0},
{42856,42856,1,3367,1},
{42857,42857,0,3368,0},
{42858,42858,1,3368,1},
{42859,42859,0,3369,0},
{42860,42860,1,3369,1},
{42861,42861,0,3370,0},
{42862,42862,1,3370,1},
{42863,42863,0,3371,0},
{42864,42864,1,3371,1},
{42865,42872,0,3372,0},
{42873,42873,1,3372,1},
{42874,42874,0,3373,0},
{42875,42875,1,3373,1},
{42876,42876,0,3374,0},
{42877,42877,1,3374,1},
{42878,42878,1,3375,1},
{42879,42879,0,3376,0},
{42880,42880,1,3376,1},
{42881,42881,0,3377,0},
{42882,42882,1,3377,1},
{42883,42883,0,3378,0},
{42884,42884,1,3378,1},
{42885,42885,0,3379,0},
{42886,42886,1,3379,1},
{42887,42888,0,3380,0},
{42889,42890,0,3380,0},
{42891,42891,1,3380,1},
{42892,42892,0,3381,0},
{42893,42893,1,3381,1},
{42894,42894,0,3382,0},
{42895,42895,0,3382,0},
{42896,42896,1,3382,1},
{42897,42897,0,3383,0},
{42898,42898,1,3383,1},
{42899,42899,0,3384,0},
{42900,42901,0,3384,0},
{42902,42902,1,3384,1},
{42903,42903,0,3385,0},
{42904,42904,1,3385,1},
{42905,42905,0,3386,0},
{42906,42906,1,3386,1},
{42907,42907,0,3387,0},
{42908,42908,1,3387,1},
{42909,42909,0,3388,0},
{42910,42910,1,3388,1},
{42911,42911,0,3389,0},
{42912,42912,1,3389,1},
{42913,42913,0,3390,0},
{42914,42914,1,3390,1},
{42915,42915,0,3391,0},
{42916,42916,1,3391,1},
{42917,42917,0,3392,0},
{42918,42918,1,3392,1},
{42919,42919,0,3393,0},
{42920,42920,1,3393,1},
{42921,42921,0,3394,0},
{42922,42922,1,3394,1},
{42923,42923,1,3395,1},
{42924,42924,1,3396,1},
{42925,42925,1,3397,1},
{42926,42926,1,3398,1},
{42927,42927,0,3399,0},
{42928,42928,1,3399,1},
{42929,42929,1,3400,1},
{42930,42930,1,3401,1},
{42931,42931,1,3402,1},
{42932,42932,1,3403,1},
{42933,42933,0,3404,0},
{42934,42934,1,3404,1},
{42935,42935,0,3405,0},
{42936,42936,1,3405,1},
{42937,42937,0,3406,0},
{42938,42938,1,3406,1},
{42939,42939,0,3407,0},
{42940,42940,1,3407,1},
{42941,42941,0,3408,0},
{42942,42942,1,3408,1},
{42943,42943,0,3409,0},
{42944,42945,4,3409,0},
{42946,42946,1,3409,1},
{42947,42947,0,3410,0},
{42948,42948,1,3410,1},
{42949,42949,1,3411,1},
{42950,42950,1,3412,1},
{42951,42951,1,3413,1},
{42952,42952,0,3414,0},
{42953,42953,1,3414,1},
{42954,42954,0,3415,0},
{42955,42996,4,3415,0},
{42997,42997,1,3415,1},
{42998,42998,0,3416,0},
{42999,42999,0,3416,0},
{43000,43000,1,3416,1},
{43001,43001,1,3417,1},
{43002,43002,0,3418,0},
{43003,43007,0,3418,0},
{43008,43047,0,3418,0},
{43048,43051,0,3418,0},
{43052,43052,0,3418,0},
{43053,43055,4,3418,0},
{43056,43065,0,3418,0},
{43066,43071,4,3418,0},
{43072,43123,0,3418,0},
{43124,43127,0,3418,0},
{43128,43135,4,3418,0},
{43136,43204,0,3418,0},
{43205,43205,0,3418,0},
{43206,43213,4,3418,0},
{43214,43215,0,3418,0},
{43216,43225,0,3418,0},
{43226,43231,4,3418,0},
{43232,43255,0,3418,0},
{43256,43258,0,3418,0},
{43259,43259,0,3418,0},
{43260,43260,0,3418,0},
{43261,43261,0,3418,0},
{43262,43263,0,3418,0},
{43264,43309,0,3418,0},
{43310,43311,0,3418,0},
{43312,43347,0,3418,0},
{43348,43358,4,3418,0},
{43359,43359,0,3418,0},
{43360,43388,0,3418,0},
{43389,43391,4,3418,0},
{43392,43456,0,3418,0},
{43457,43469,0,3418,0},
{43470,43470,4,3418,0},
{43471,43481,0,3418,0},
{43482,43485,4,3418,0},
{43486,43487,0,3418,0},
{43488,43518,0,3418,0},
{43519,43519,4,3418,0},
{43520,43574,0,3418,0},
{43575,43583,4,3418,0},
{43584,43597,0,3418,0},
{43598,43599,4,3418,0},
{43600,43609,0,3418,0},
{43610,43611,4,3418,0},
{43612,43615,0,3418,0},
{43616,43638,0,3418,0},
{43639,43641,0,3418,0},
{43642,43643,0,3418,0},
{43644,43647,0,3418,0},
{43648,43714,0,3418,0},
{43715,43738,4,3418,0},
{43739,43741,0,3418,0},
{43742,43743,0,3418,0},
{43744,43759,0,3418,0},
{43760,43761,0,3418,0},
{43762,43766,0,3418,0},
{43767,43776,4,3418,0},
{43777,43782,0,3418,0},
{43783,43784,4,3418,0},
{43785,43790,0,3418,0},
{43791,43792,4,3418,0},
{43793,43798,0,3418,0},
{43799,43807,4,3418,0},
{43808,43814,0,3418,0},
{43815,43815,4,3418,0},
{43816,43822,0,3418,0},
{43823,43823,4,3418,0},
{43824,43866,0,3418,0},
{43867,43867,0,3418,0},
{43868,43868,1,3418,1},
{43869,43869,1,3419,1},
{43870,43870,1,3420,1},
{43871,43871,1,3421,1},
{43872,43875,0,3422,0},
{43876,43877,0,3422,0},
{43878,43879,0,3422,0},
{43880,43880,0,3422,0},
{43881,43881,1,3422,1},
{43882,43883,0,3423,0},
{43884,43887,4,3423,0},
{43888,43888,1,3423,1},
{43889,43889,1,3424,1},
{43890,43890,1,3425,1},
{43891,43891,1,3426,1},
{43892,43892,1,3427,1},
{43893,43893,1,3428,1},
{43894,43894,1,3429,1},
{43895,43895,1,3430,1},
{43896,43896,1,3431,1},
{43897,43897,1,3432,1},
{43898,43898,1,3433,1},
{43899,43899,1,3434,1},
{43900,43900,1,3435,1},
{43901,43901,1,3436,1},
{43902,43902,1,3437,1},
{43903,43903,1,3438,1},
{43904,43904,1,3439,1},
{43905,43905,1,3440,1},
{43906,43906,1,3441,1},
{43907,43907,1,3442,1},
{43908,43908,1,3443,1},
{43909,43909,1,3444,1},
{43910,43910,1,3445,1},
{43911,43911,1,3446,1},
{43912,43912,1,3447,1},
{43913,43913,1,3448,1},
{43914,43914,1,3449,1},
{43915,43915,1,3450,1},
{43916,43916,1,3451,1},
{43917,43917,1,3452,1},
{43918,43918,1,3453,1},
{43919,43919,1,3454,1},
{43920,43920,1,3455,1},
{43921,43921,1,3456,1},
{43922,43922,1,3457,1},
{43923,43923,1,3458,1},
{43924,43924,1,3459,1},
{43925,43925,1,3460,1},
{43926,43926,1,3461,1},
{43927,43927,1,3462,1},
{43928,43928,1,3463,1},
{43929,43929,1,3464,1},
{43930,43930,1,3465,1},
{43931,43931,1,3466,1},
{43932,43932,1,3467,1},
{43933,43933,1,3468,1},
{43934,43934,1,3469,1},
{43935,43935,1,3470,1},
{43936,43936,1,3471,1},
{43937,43937,1,3472,1},
{43938,43938,1,3473,1},
{43939,43939,1,3474,1},
{43940,43940,1,3475,1},
{43941,43941,1,3476,1},
{43942,43942,1,3477,1},
{43943,43943,1,3478,1},
{43944,43944,1,3479,1},
{43945,43945,1,3480,1},
{43946,43946,1,3481,1},
{43947,43947,1,3482,1},
{43948,43948,1,3483,1},
{43949,43949,1,3484,1},
{43950,43950,1,3485,1},
{43951,43951,1,3486,1},
{43952,43952,1,3487,1},
{43953,43953,1,3488,1},
{43954,43954,1,3489,1},
{43955,43955,1,3490,1},
{43956,43956,1,3491,1},
{43957,43957,1,3492,1},
{43958,43958,1,3493,1},
{43959,43959,1,3494,1},
{43960,43960,1,3495,1},
{43961,43961,1,3496,1},
{43962,43962,1,3497,1},
{43963,43963,1,3498,1},
{43964,43964,1,3499,1},
{43965,43965,1,3500,1},
{43966,43966,1,3501,1},
{43967,43967,1,3502,1},
{43968,44010,0,3503,0},
{44011,44011,0,3503,0},
{44012,44013,0,3503,0},
{44014,44015,4,3503,0},
{44016,44025,0,3503,0},
{44026,44031,4,3503,0},
{44032,55203,0,3503,0},
{55204,55215,4,3503,0},
{55216,55238,0,3503,0},
{55239,55242,4,3503,0},
{55243,55291,0,3503,0},
{55292,55295,4,3503,0},
{55296,57343,4,3503,0},
{57344,63743,4,3503,0},
{63744,63744,1,3503,1},
{63745,63745,1,3504,1},
{63746,63746,1,3505,1},
{63747,63747,1,3506,1},
{63748,63748,1,3507,1},
{63749,63749,1,3508,1},
{63750,63750,1,3509,1},
{63751,63752,1,3510,1},
{63753,63753,1,3511,1},
{63754,63754,1,3512,1},
{63755,63755,1,3513,1},
{63756,63756,1,3514,1},
{63757,63757,1,3515,1},
{63758,63758,1,3516,1},
{63759,63759,1,3517,1},
{63760,63760,1,3518,1},
{63761,63761,1,3519,1},
{63762,63762,1,3520,1},
{63763,63763,1,3521,1},
{63764,63764,1,3522,1},
{63765,63765,1,3523,1},
{63766,63766,1,3524,1},
{63767,63767,1,3525,1},
{63768,63768,1,3526,1},
{63769,63769,1,3527,1},
{63770,63770,1,3528,1},
{63771,63771,1,3529,1},
{63772,63772,1,3530,1},
{63773,63773,1,3531,1},
{63774,63774,1,3532,1},
{63775,63775,1,3533,1},
{63776,63776,1,3534,1},
{63777,63777,1,3535,1},
{63778,63778,1,3536,1},
{63779,63779,1,3537,1},
{63780,63780,1,3538,1},
{63781,63781,1,3539,1},
{63782,63782,1,3540,1},
{63783,63783,1,3541,1},
{63784,63784,1,3542,1},
{63785,63785,1,3543,1},
{63786,63786,1,3544,1},
{63787,63787,1,3545,1},
{63788,63788,1,3546,1},
{63789,63789,1,3547,1},
{63790,63790,1,3548,1},
{63791,63791,1,3549,1},
{63792,63792,1,3550,1},
{63793,63793,1,3551,1},
{63794,63794,1,3552,1},
{63795,63795,1,3553,1},
{63796,63796,1,3554,1},
{63797,63797,1,3555,1},
{63798,63798,1,3556,1},
{63799,63799,1,3557,1},
{63800,63800,1,3558,1},
{63801,63801,1,3559,1},
{63802,63802,1,3560,1},
{63803,63803,1,3561,1},
{63804,63804,1,3562,1},
{63805,63805,1,3563,1},
{63806,63806,1,3564,1},
{63807,63807,1,3565,1},
{63808,63808,1,3566,1},
{63809,63809,1,3567,1},
{63810,63810,1,3568,1},
{63811,63811,1,3569,1},
{63812,63812,1,3570,1},
{63813,63813,1,3571,1},
{63814,63814,1,3572,1},
{63815,63815,1,3573,1},
{63816,63816,1,3574,1},
{63817,63817,1,3575,1},
{63818,63818,1,3576,1},
{63819,63819,1,3577,1},
{63820,63820,1,3578,1},
{63821,63821,1,3579,1},
{63822,63822,1,3580,1},
{63823,63823,1,3581,1},
{63824,63824,1,3582,1},
{63825,63825,1,3583,1},
{63826,63826,1,3584,1},
{63827,63827,1,3585,1},
{63828,63828,1,3586,1},
{63829,63829,1,3587,1},
{63830,63830,1,3588,1},
{63831,63831,1,3589,1},
{63832,63832,1,3590,1},
{63833,63833,1,3591,1},
{63834,63834,1,3592,1},
{63835,63835,1,3593,1},
{63836,63836,1,3594,1},
{63837,63837,1,3595,1},
{63838,63838,1,3596,1},
{63839,63839,1,3597,1},
{63840,63840,1,3598,1},
{63841,63841,1,3599,1},
{63842,63842,1,3600,1},
{63843,63843,1,3601,1},
{63844,63844,1,3602,1},
{63845,63845,1,3603,1},
{63846,63846,1,3604,1},
{63847,63847,1,3605,1},
{63848,63848,1,3606,1},
{63849,63849,1,3607,1},
{63850,63850,1,3608,1},
{63851,63851,1,3609,1},
{63852,63852,1,3610,1},
{63853,63853,1,3611,1},
{63854,63854,1,3612,1},
{63855,63855,1,3613,1},
{63856,63856,1,3614,1},
{63857,63857,1,3615,1},
{63858,63858,1,3616,1},
{63859,63859,1,3617,1},
{63860,63860,1,3618,1},
{63861,63861,1,3619,1},
{63862,63862,1,3620,1},
{63863,63863,1,3621,1},
{63864,63864,1,3622,1},
{63865,63865,1,3623,1},
{63866,63866,1,3624,1},
{63867,63867,1,3625,1},
{63868,63868,1,3626,1},
{63869,63869,1,3627,1},
{63870,63870,1,3628,1},
{63871,63871,1,3629,1},
{63872,63872,1,3630,1},
{63873,63873,1,3631,1},
{63874,63874,1,3632,1},
{63875,63875,1,3633,1},
{63876,63876,1,3634,1},
{63877,63877,1,3635,1},
{63878,63878,1,3636,1},
{63879,63879,1,3637,1},
{63880,63880,1,3638,1},
{63881,63881,1,3639,1},
{63882,63882,1,3640,1},
{63883,63883,1,3641,1},
{63884,63884,1,3642,1},
{63885,63885,1,3643,1},
{63886,63886,1,3644,1},
{63887,63887,1,3645,1},
{63888,63888,1,3646,1},
{63889,63889,1,3647,1},
{63890,63890,1,3648,1},
{63891,63891,1,3649,1},
{63892,63892,1,3650,1},
{63893,63893,1,3651,1},
{63894,63894,1,3652,1},
{63895,63895,1,3653,1},
{63896,63896,1,3654,1},
{63897,63897,1,3655,1},
{63898,63898,1,3656,1},
{63899,63899,1,3657,1},
{63900,63900,1,3658,1},
{63901,63901,1,3659,1},
{63902,63902,1,3660,1},
{63903,63903,1,3661,1},
{63904,63904,1,3662,1},
{63905,63905,1,3663,1},
{63906,63906,1,3664,1},
{63907,63907,1,3665,1},
{63908,63908,1,3666,1},
{63909,63909,1,3667,1},
{63910,63910,1,3668,1},
{63911,63911,1,3669,1},
{63912,63912,1,3670,1},
{63913,63913,1,3671,1},
{63914,63914,1,3672,1},
{63915,63915,1,3673,1},
{63916,63916,1,3674,1},
{63917,63917,1,3675,1},
{63918,63918,1,3676,1},
{63919,63919,1,3677,1},
{63920,63920,1,3678,1},
{63921,63921,1,3679,1},
{63922,63922,1,3680,1},
{63923,63923,1,3681,1},
{63924,63924,1,3682,1},
{63925,63925,1,3683,1},
{63926,63926,1,3684,1},
{63927,63927,1,3685,1},
{63928,63928,1,3686,1},
{63929,63929,1,3687,1},
{63930,63930,1,3688,1},
{63931,63931,1,3689,1},
{63932,63932,1,3690,1},
{63933,63933,1,3691,1},
{63934,63934,1,3692,1},
{63935,63935,1,3693,1},
{63936,63936,1,3694,1},
{63937,63937,1,3695,1},
{63938,63938,1,3696,1},
{63939,63939,1,3697,1},
{63940,63940,1,3698,1},
{63941,63941,1,3699,1},
{63942,63942,1,3700,1},
{63943,63943,1,3701,1},
{63944,63944,1,3702,1},
{63945,63945,1,3703,1},
{63946,63946,1,3704,1},
{63947,63947,1,3705,1},
{63948,63948,1,3706,1},
{63949,63949,1,3707,1},
{63950,63950,1,3708,1},
{63951,63951,1,3709,1},
{63952,63952,1,3710,1},
{63953,63953,1,3711,1},
{63954,63954,1,3712,1},
{63955,63955,1,3713,1},
{63956,63956,1,3714,1},
{63957,63957,1,3715,1},
{63958,63958,1,3716,1},
{63959,63959,1,3717,1},
{63960,63960,1,3718,1},
{63961,63961,1,3719,1},
{63962,63962,1,3720,1},
{63963,63963,1,3721,1},
{63964,63964,1,3722,1},
{63965,63965,1,3723,1},
{63966,63966,1,3724,1},
{63967,63967,1,3725,1},
{63968,63968,1,3726,1},
{63969,63969,1,3727,1},
{63970,63970,1,3728,1},
{63971,63971,1,3729,1},
{63972,63972,1,3730,1},
{63973,63973,1,3731,1},
{63974,63974,1,3732,1},
{63975,63975,1,3733,1},
{63976,63976,1,3734,1},
{63977,63977,1,3735,1},
{63978,63978,1,3736,1},
{63979,63979,1,3737,1},
{63980,63980,1,3738,1},
{63981,63981,1,3739,1},
{63982,63982,1,3740,1},
{63983,63983,1,3741,1},
{63984,63984,1,3742,1},
{63985,63985,1,3743,1},
{63986,63986,1,3744,1},
{63987,63987,1,3745,1},
{63988,63988,1,3746,1},
{63989,63989,1,3747,1},
{63990,63990,1,3748,1},
{63991,63991,1,3749,1},
{63992,63992,1,3750,1},
{63993,63993,1,3751,1},
{63994,63994,1,3752,1},
{63995,63995,1,3753,1},
{63996,63996,1,3754,1},
{63997,63997,1,3755,1},
{63998,63998,1,3756,1},
{63999,63999,1,3757,1},
{64000,64000,1,3758,1},
{64001,64001,1,3759,1},
{64002,64002,1,3760,1},
{64003,64003,1,3761,1},
{64004,64004,1,3762,1},
{64005,64005,1,3763,1},
{64006,64006,1,3764,1},
{64007,64007,1,3765,1},
{64008,64008,1,3766,1},
{64009,64009,1,3767,1},
{64010,64010,1,3768,1},
{64011,64011,1,3769,1},
{64012,64012,1,3770,1},
{64013,64013,1,3771,1},
{64014,64015,0,3772,0},
{64016,64016,1,3772,1},
{64017,64017,0,3773,0},
{64018,64018,1,3773,1},
{64019,64020,0,3774,0},
{64021,64021,1,3774,1},
{64022,64022,1,3775,1},
{64023,64023,1,3776,1},
{64024,64024,1,3777,1},
{64025,64025,1,3778,1},
{64026,64026,1,3779,1},
{64027,64027,1,3780,1},
{64028,64028,1,3781,1},
{64029,64029,1,3782,1},
{64030,64030,1,3783,1},
{64031,64031,0,3784,0},
{64032,64032,1,3784,1},
{64033,64033,0,3785,0},
{64034,64034,1,3785,1},
{64035,64036,0,3786,0},
{64037,64037,1,3786,1},
{64038,64038,1,3787,1},
{64039,64041,0,3788,0},
{64042,64042,1,3788,1},
{64043,64043,1,3789,1},
{64044,64044,1,3790,1},
{64045,64045,1,3791,1},
{64046,64046,1,3792,1},
{64047,64047,1,3793,1},
{64048,64048,1,3794,1},
{64049,64049,1,3795,1},
{64050,64050,1,3796,1},
{64051,64051,1,3797,1},
{64052,64052,1,3798,1},
{64053,64053,1,3799,1},
{64054,64054,1,3800,1},
{64055,64055,1,3801,1},
{64056,64056,1,3802,1},
{64057,64057,1,3803,1},
{64058,64058,1,3804,1},
{64059,64059,1,3805,1},
{64060,64060,1,3806,1},
{64061,64061,1,3807,1},
{64062,64062,1,3808,1},
{64063,64063,1,3809,1},
{64064,64064,1,3810,1},
{64065,64065,1,3811,1},
{64066,64066,1,3812,1},
{64067,64067,1,3813,1},
{64068,64068,1,3814,1},
{64069,64069,1,3815,1},
{64070,64070,1,3816,1},
{64071,64071,1,3817,1},
{64072,64072,1,3818,1},
{64073,64073,1,3819,1},
{64074,64074,1,3820,1},
{64075,64075,1,3821,1},
{64076,64076,1,3822,1},
{64077,64077,1,3823,1},
{64078,64078,1,3824,1},
{64079,64079,1,3825,1},
{64080,64080,1,3826,1},
{64081,64081,1,3827,1},
{64082,64082,1,3828,1},
{64083,64083,1,3829,1},
{64084,64084,1,3830,1},
{64085,64085,1,3831,1},
{64086,64086,1,3832,1},
{64087,64087,1,3833,1},
{64088,64088,1,3834,1},
{64089,64089,1,3835,1},
{64090,64090,1,3836,1},
{64091,64091,1,3837,1},
{64092,64092,1,3838,1},
{64093,64094,1,3839,1},
{64095,64095,1,3840,1},
{64096,64096,1,3841,1},
{64097,64097,1,3842,1},
{64098,64098,1,3843,1},
{64099,64099,1,3844,1},
{64100,64100,1,3845,1},
{64101,64101,1,3846,1},
{64102,64102,1,3847,1},
{64103,64103,1,3848,1},
{64104,64104,1,3849,1},
{64105,64105,1,3850,1},
{64106,64106,1,3851,1},
{64107,64107,1,3852,1},
{64108,64108,1,3853,1},
{64109,64109,1,3854,1},
{64110,64111,4,3855,0},
{64112,64112,1,3855,1},
{64113,64113,1,3856,1},
{64114,64114,1,3857,1},
{64115,64115,1,3858,1},
{64116,64116,1,3859,1},
{64117,64117,1,3860,1},
{64118,64118,1,3861,1},
{64119,64119,1,3862,1},
{64120,64120,1,3863,1},
{64121,64121,1,3864,1},
{64122,64122,1,3865,1},
{64123,64123,1,3866,1},
{64124,64124,1,3867,1},
{64125,64125,1,3868,1},
{64126,64126,1,3869,1},
{64127,64127,1,3870,1},
{64128,64128,1,3871,1},
{64129,64129,1,3872,1},
{64130,64130,1,3873,1},
{64131,64131,1,3874,1},
{64132,64132,1,3875,1},
{64133,64133,1,3876,1},
{64134,64134,1,3877,1},
{64135,64135,1,3878,1},
{64136,64136,1,3879,1},
{64137,64137,1,3880,1},
{64138,64138,1,3881,1},
{64139,64139,1,3882,1},
{64140,64140,1,3883,1},
{64141,64141,1,3884,1},
{64142,64142,1,3885,1},
{64143,64143,1,3886,1},
{64144,64144,1,3887,1},
{64145,64145,1,3888,1},
{64146,64146,1,3889,1},
{64147,64147,1,3890,1},
{64148,64148,1,3891,1},
{64149,64149,1,3892,1},
{64150,64150,1,3893,1},
{64151,64151,1,3894,1},
{64152,64152,1,3895,1},
{64153,64153,1,3896,1},
{64154,64154,1,3897,1},
{64155,64155,1,3898,1},
{64156,64156,1,3899,1},
{64157,64157,1,3900,1},
{64158,64158,1,3901,1},
{64159,64159,1,3902,1},
{64160,64160,1,3903,1},
{64161,64161,1,3904,1},
{64162,64162,1,3905,1},
{64163,64163,1,3906,1},
{64164,64164,1,3907,1},
{64165,64165,1,3908,1},
{64166,64166,1,3909,1},
{64167,64167,1,3910,1},
{64168,64168,1,3911,1},
{64169,64169,1,3912,1},
{64170,64170,1,3913,1},
{64171,64171,1,3914,1},
{64172,64172,1,3915,1},
{64173,64173,1,3916,1},
{64174,64174,1,3917,1},
{64175,64175,1,3918,1},
{64176,64176,1,3919,1},
{64177,64177,1,3920,1},
{64178,64178,1,3921,1},
{64179,64179,1,3922,1},
{64180,64180,1,3923,1},
{64181,64181,1,3924,1},
{64182,64182,1,3925,1},
{64183,64183,1,3926,1},
{64184,64184,1,3927,1},
{64185,64185,1,3928,1},
{64186,64186,1,3929,1},
{64187,64187,1,3930,1},
{64188,64188,1,3931,1},
{64189,64189,1,3932,1},
{64190,64190,1,3933,1},
{64191,64191,1,3934,1},
{64192,64192,1,3935,1},
{64193,64193,1,3936,1},
{64194,64194,1,3937,1},
{64195,64195,1,3938,1},
{64196,64196,1,3939,1},
{64197,64197,1,3940,1},
{64198,64198,1,3941,1},
{64199,64199,1,3942,1},
{64200,64200,1,3943,1},
{64201,64201,1,3944,1},
{64202,64202,1,3945,1},
{64203,64203,1,3946,1},
{64204,64204,1,3947,1},
{64205,64205,1,3948,1},
{64206,64206,1,3949,1},
{64207,64207,1,3950,1},
{64208,64208,1,3951,1},
{64209,64209,1,3952,1},
{64210,64210,1,3953,1},
{64211,64211,1,3954,1},
{64212,64212,1,3955,1},
{64213,64213,1,3956,1},
{64214,64214,1,3957,1},
{64215,64215,1,3958,1},
{64216,64216,1,3959,1},
{64217,64217,1,3960,1},
{64218,64255,4,3961,0},
{64256,64256,1,3961,2},
{64257,64257,1,3963,2},
{64258,64258,1,3965,2},
{64259,64259,1,3967,3},
{64260,64260,1,3970,3},
{64261,64262,1,3973,2},
{64263,64274,4,3975,0},
{64275,64275,1,3975,2},
{64276,64276,1,3977,2},
{64277,64277,1,3979,2},
{64278,64278,1,3981,2},
{64279,64279,1,3983,2},
{64280,64284,4,3985,0},
{64285,64285,1,3985,2},
{64286,64286,0,3987,0},
{64287,64287,1,3987,2},
{64288,64288,1,3989,1},
{64289,64289,1,3990,1},
{64290,64290,1,3991,1},
{64291,64291,1,3992,1},
{64292,64292,1,3993,1},
{64293,64293,1,3994,1},
{64294,64294,1,3995,1},
{64295,64295,1,3996,1},
{64296,64296,1,3997,1},
{64297,64297,6,3998,1},
{64298,64298,1,3999,2},
{64299,64299,1,4001,2},
{64300,64300,1,4003,3},
{64301,64301,1,4006,3},
{64302,64302,1,4009,2},
{64303,64303,1,4011,2},
{64304,64304,1,4013,2},
{64305,64305,1,4015,2},
{64306,64306,1,4017,2},
{64307,64307,1,4019,2},
{64308,64308,1,4021,2},
{64309,64309,1,4023,2},
{64310,64310,1,4025,2},
{64311,64311,4,4027,0},
{64312,64312,1,4027,2},
{64313,64313,1,4029,2},
{64314,64314,1,4031,2},
{64315,64315,1,4033,2},
{64316,64316,1,4035,2},
{64317,64317,4,4037,0},
{64318,64318,1,4037,2},
{64319,64319,4,4039,0},
{64320,64320,1,4039,2},
{64321,64321,1,4041,2},
{64322,64322,4,4043,0},
{64323,64323,1,4043,2},
{64324,64324,1,4045,2},
{64325,64325,4,4047,0},
{64326,64326,1,4047,2},
{64327,64327,1,4049,2},
{64328,64328,1,4051,2},
{64329,64329,1,4053,2},
{64330,64330,1,4055,2},
{64331,64331,1,4057,2},
{64332,64332,1,4059,2},
{64333,64333,1,4061,2},
{64334,64334,1,4063,2},
{64335,64335,1,4065,2},
{64336,64337,1,4067,1},
{64338,64341,1,4068,1},
{64342,64345,1,4069,1},
{64346,64349,1,4070,1},
{64350,64353,1,4071,1},
{64354,64357,1,4072,1},
{64358,64361,1,4073,1},
{64362,64365,1,4074,1},
{64366,64369,1,4075,1},
{64370,64373,1,4076,1},
{64374,64377,1,4077,1},
{64378,64381,1,4078,1},
{64382,64385,1,4079,1},
{64386,64387,1,4080,1},
{64388,64389,1,4081,1},
{64390,64391,1,4082,1},
{64392,64393,1,4083,1},
{64394,64395,1,4084,1},
{64396,64397,1,4085,1},
{64398,64401,1,4086,1},
{64402,64405,1,4087,1},
{64406,64409,1,4088,1},
{64410,64413,1,4089,1},
{64414,64415,1,4090,1},
{64416,64419,1,4091,1},
{64420,64421,1,4092,1},
{64422,64425,1,4093,1},
{64426,64429,1,4094,1},
{64430,64431,1,4095,1},
{64432,64433,1,4096,1},
{64434,64449,0,4097,0},
{64450,64466,4,4097,0},
{64467,64470,1,4097,1},
{64471,64472,1,4098,1},
{64473,64474,1,4099,1},
{64475,64476,1,4100,1},
{64477,64477,1,4101,2},
{64478,64479,1,4103,1},
{64480,64481,1,4104,1},
{64482,64483,1,4105,1},
{64484,64487,1,4106,1},
{64488,64489,1,4107,1},
{64490,64491,1,4108,2},
{64492,64493,1,4110,2},
{64494,64495,1,4112,2},
{64496,64497,1,4114,2},
{64498,64499,1,4116,2},
{64500,64501,1,4118,2},
{64502,64504,1,4120,2},
{64505,64507,1,4122,2},
{64508,64511,1,4124,1},
{64512,64512,1,4125,2},
{64513,64513,1,4127,2},
{64514,64514,1,4129,2},
{64515,64515,1,4131,2},
{64516,64516,1,4133,2},
{64517,64517,1,4135,2},
{64518,64518,1,4137,2},
{64519,64519,1,4139,2},
{64520,64520,1,4141,2},
{64521,64521,1,4143,2},
{64522,64522,1,4145,2},
{64523,64523,1,4147,2},
{64524,64524,1,4149,2},
{64525,64525,1,4151,2},
{64526,64526,1,4153,2},
{64527,64527,1,4155,2},
{64528,64528,1,4157,2},
{64529,64529,1,4159,2},
{64530,64530,1,4161,2},
{64531,64531,1,4163,2},
{64532,64532,1,4165,2},
{64533,64533,1,4167,2},
{64534,64534,1,4169,2},
{64535,64535,1,4171,2},
{64536,64536,1,4173,2},
{64537,64537,1,4175,2},
{64538,64538,1,4177,2},
{64539,64539,1,4179,2},
{64540,64540,1,4181,2},
{64541,64541,1,4183,2},
{64542,64542,1,4185,2},
{64543,64543,1,4187,2},
{64544,64544,1,4189,2},
{64545,64545,1,4191,2},
{64546,64546,1,4193,2},
{64547,64547,1,4195,2},
{64548,64548,1,4197,2},
{64549,64549,1,4199,2},
{64550,64550,1,4201,2},
{64551,64551,1,4203,2},
{64552,64552,1,4205,2},
{64553,64553,1,4207,2},
{64554,64554,1,4209,2},
{64555,64555,1,4211,2},
{64556,64556,1,4213,2},
{64557,64557,1,4215,2},
{64558,64558,1,4217,2},
{64559,64559,1,4219,2},
{64560,64560,1,4221,2},
{64561,64561,1,4223,2},
{64562,64562,1,4225,2},
{64563,64563,1,4227,2},
{64564,64564,1,4229,2},
{64565,64565,1,4231,2},
{64566,64566,1,4233,2},
{64567,64567,1,4235,2},
{64568,64568,1,4237,2},
{64569,64569,1,4239,2},
{64570,64570,1,4241,2},
{64571,64571,1,4243,2},
{64572,64572,1,4245,2},
{64573,64573,1,4247,2},
{64574,64574,1,4249,2},
{64575,64575,1,4251,2},
{64576,64576,1,4253,2},
{64577,64577,1,4255,2},
{64578,64578,1,4257,2},
{64579,64579,1,4259,2},
{64580,64580,1,4261,2},
{64581,64581,1,4263,2},
{64582,64582,1,4265,2},
{64583,64583,1,4267,2},
{64584,64584,1,4269,2},
{64585,64585,1,4271,2},
{64586,64586,1,4273,2},
{64587,64587,1,4275,2},
{64588,64588,1,4277,2},
{64589,64589,1,4279,2},
{64590,64590,1,4281,2},
{64591,64591,1,4283,2},
{64592,64592,1,4285,2},
{64593,64593,1,4287,2},
{64594,64594,1,4289,2},
{64595,64595,1,4291,2},
{64596,64596,1,4293,2},
{64597,64597,1,4295,2},
{64598,64598,1,4297,2},
{64599,64599,1,4299,2},
{64600,64600,1,4301,2},
{64601,64601,1,4303,2},
{64602,64602,1,4305,2},
{64603,64603,1,4307,2},
{64604,64604,1,4309,2},
{64605,64605,1,4311,2},
{64606,64606,6,4313,3},
{64607,64607,6,4316,3},
{64608,64608,6,4319,3},
{64609,64609,6,4322,3},
{64610,64610,6,4325,3},
{64611,64611,6,4328,3},
{64612,64612,1,4331,2},
{64613,64613,1,4333,2},
{64614,64614,1,4335,2},
{64615,64615,1,4337,2},
{64616,64616,1,4339,2},
{64617,64617,1,4341,2},
{64618,64618,1,4343,2},
{64619,64619,1,4345,2},
{64620,64620,1,4347,2},
{64621,64621,1,4349,2},
{64622,64622,1,4351,2},
{64623,64623,1,4353,2},
{64624,64624,1,4355,2},
{64625,64625,1,4357,2},
{64626,64626,1,4359,2},
{64627,64627,1,4361,2},
{64628,64628,1,4363,2},
{64629,64629,1,4365,2},
{64630,64630,1,4367,2},
{64631,64631,1,4369,2},
{64632,64632,1,4371,2},
{64633,64633,1,4373,2},
{64634,64634,1,4375,2},
{64635,64635,1,4377,2},
{64636,64636,1,4379,2},
{64637,64637,1,4381,2},
{64638,64638,1,4383,2},
{64639,64639,1,4385,2},
{64640,64640,1,4387,2},
{64641,64641,1,4389,2},
{64642,64642,1,4391,2},
{64643,64643,1,4393,2},
{64644,64644,1,4395,2},
{64645,64645,1,4397,2},
{64646,64646,1,4399,2},
{64647,64647,1,4401,2},
{64648,64648,1,4403,2},
{64649,64649,1,4405,2},
{64650,64650,1,4407,2},
{64651,64651,1,4409,2},
{64652,64652,1,4411,2},
{64653,64653,1,4413,2},
{64654,64654,1,4415,2},
{64655,64655,1,4417,2},
{64656,64656,1,4419,2},
{64657,64657,1,4421,2},
{64658,64658,1,4423,2},
{64659,64659,1,4425,2},
{64660,64660,1,4427,2},
{64661,64661,1,4429,2},
{64662,64662,1,4431,2},
{64663,64663,1,4433,2},
{64664,64664,1,4435,2},
{64665,64665,1,4437,2},
{64666,64666,1,4439,2},
{64667,64667,1,4441,2},
{64668,64668,1,4443,2},
{64669,64669,1,4445,2},
{64670,64670,1,4447,2},
{64671,64671,1,4449,2},
{64672,64672,1,4451,2},
{64673,64673,1,4453,2},
{64674,64674,1,4455,2},
{64675,64675,1,4457,2},
{64676,64676,1,4459,2},
{64677,64677,1,4461,2},
{64678,64678,1,4463,2},
{64679,64679,1,4465,2},
{64680,64680,1,4467,2},
{64681,64681,1,4469,2},
{64682,64682,1,4471,2},
{64683,64683,1,4473,2},
{64684,64684,1,4475,2},
{64685,64685,1,4477,2},
{64686,64686,1,4479,2},
{64687,64687,1,4481,2},
{64688,64688,1,4483,2},
{64689,64689,1,4485,2},
{64690,64690,1,4487,2},
{64691,64691,1,4489,2},
{64692,64692,1,4491,2},
{64693,64693,1,4493,2},
{64694,64694,1,4495,2},
{64695,64695,1,4497,2},
{64696,64696,1,4499,2},
{64697,64697,1,4501,2},
{64698,64698,1,4503,2},
{64699,64699,1,4505,2},
{64700,64700,1,4507,2},
{64701,64701,1,4509,2},
{64702,64702,1,4511,2},
{64703,64703,1,4513,2},
{64704,64704,1,4515,2},
{64705,64705,1,4517,2},
{64706,64706,1,4519,2},
{64707,64707,1,4521,2},
{64708,64708,1,4523,2},
{64709,64709,1,4525,2},
{64710,64710,1,4527,2},
{64711,64711,1,4529,2},
{64712,64712,1,4531,2},
{64713,64713,1,4533,2},
{64714,64714,1,4535,2},
{64715,64715,1,4537,2},
{64716,64716,1,4539,2},
{64717,64717,1,4541,2},
{64718,64718,1,4543,2},
{64719,64719,1,4545,2},
{64720,64720,1,4547,2},
{64721,64721,1,4549,2},
{64722,64722,1,4551,2},
{64723,64723,1,4553,2},
{64724,64724,1,4555,2},
{64725,64725,1,4557,2},
{64726,64726,1,4559,2},
{64727,64727,1,4561,2},
{64728,64728,1,4563,2},
{64729,64729,1,4565,2},
{64730,64730,1,4567,2},
{64731,64731,1,4569,2},
{64732,64732,1,4571,2},
{64733,64733,1,4573,2},
{64734,64734,1,4575,2},
{64735,64735,1,4577,2},
{64736,64736,1,4579,2},
{64737,64737,1,4581,2},
{64738,64738,1,4583,2},
{64739,64739,1,4585,2},
{64740,64740,1,4587,2},
{64741,64741,1,4589,2},
{64742,64742,1,4591,2},
{64743,64743,1,4593,2},
{64744,64744,1,4595,2},
{64745,64745,1,4597,2},
{64746,64746,1,4599,2},
{64747,64747,1,4601,2},
{64748,64748,1,4603,2},
{64749,64749,1,4605,2},
{64750,64750,1,4607,2},
{64751,64751,1,4609,2},
{64752,64752,1,4611,2},
{64753,64753,1,4613,2},
{64754,64754,1,4615,3},
{64755,64755,1,4618,3},
{64756,64756,1,4621,3},
{64757,64757,1,4624,2},
{64758,64758,1,4626,2},
{64759,64759,1,4628,2},
{64760,64760,1,4630,2},
{64761,64761,1,4632,2},
{64762,64762,1,4634,2},
{64763,64763,1,4636,2},
{64764,64764,1,4638,2},
{64765,64765,1,4640,2},
{64766,64766,1,4642,2},
{64767,64767,1,4644,2},
{64768,64768,1,4646,2},
{64769,64769,1,4648,2},
{64770,64770,1,4650,2},
{64771,64771,1,4652,2},
{64772,64772,1,4654,2},
{64773,64773,1,4656,2},
{64774,64774,1,4658,2},
{64775,64775,1,4660,2},
{64776,64776,1,4662,2},
{64777,64777,1,4664,2},
{64778,64778,1,4666,2},
{64779,64779,1,4668,2},
{64780,64780,1,4670,2},
{64781,64781,1,4672,2},
{64782,64782,1,4674,2},
{64783,64783,1,4676,2},
{64784,64784,1,4678,2},
{64785,64785,1,4680,2},
{64786,64786,1,4682,2},
{64787,64787,1,4684,2},
{64788,64788,1,4686,2},
{64789,64789,1,4688,2},
{64790,64790,1,4690,2},
{64791,64791,1,4692,2},
{64792,64792,1,4694,2},
{64793,64793,1,4696,2},
{64794,64794,1,4698,2},
{64795,64795,1,4700,2},
{64796,64796,1,4702,2},
{64797,64797,1,4704,2},
{64798,64798,1,4706,2},
{64799,64799,1,4708,2},
{64800,64800,1,4710,2},
{64801,64801,1,4712,2},
{64802,64802,1,4714,2},
{64803,64803,1,4716,2},
{64804,64804,1,4718,2},
{64805,64805,1,4720,2},
{64806,64806,1,4722,2},
{64807,64807,1,4724,2},
{64808,64808,1,4726,2},
{64809,64809,1,4728,2},
{64810,64810,1,4730,2},
{64811,64811,1,4732,2},
{64812,64812,1,4734,2},
{64813,64813,1,4736,2},
{64814,64814,1,4738,2},
{64815,64815,1,4740,2},
{64816,64816,1,4742,2},
{64817,64817,1,4744,2},
{64818,64818,1,4746,2},
{64819,64819,1,4748,2},
{64820,64820,1,4750,2},
{64821,64821,1,4752,2},
{64822,64822,1,4754,2},
{64823,64823,1,4756,2},
{64824,64824,1,4758,2},
{64825,64825,1,4760,2},
{64826,64826,1,4762,2},
{64827,64827,1,4764,2},
{64828,64829,1,4766,2},
{64830,64831,0,4768,0},
{64832,64847,4,4768,0},
{64848,64848,1,4768,3},
{64849,64850,1,4771,3},
{64851,64851,1,4774,3},
{64852,64852,1,4777,3},
{64853,64853,1,4780,3},
{64854,64854,1,4783,3},
{64855,64855,1,4786,3},
{64856,64857,1,4789,3},
{64858,64858,1,4792,3},
{64859,64859,1,4795,3},
{64860,64860,1,4798,3},
{64861,64861,1,4801,3},
{64862,64862,1,4804,3},
{64863,64864,1,4807,3},
{64865,64865,1,4810,3},
{64866,64867,1,4813,3},
{64868,64869,1,4816,3},
{64870,64870,1,4819,3},
{64871,64872,1,4822,3},
{64873,64873,1,4825,3},
{64874,64875,1,4828,3},
{64876,64877,1,4831,3},
{64878,64878,1,4834,3},
{64879,64880,1,4837,3},
{64881,64882,1,4840,3},
{64883,64883,1,4843,3},
{64884,64884,1,4846,3},
{64885,64885,1,4849,3},
{64886,64887,1,4852,3},
{64888,64888,1,4855,3},
{64889,64889,1,4858,3},
{64890,64890,1,4861,3},
{64891,64891,1,4864,3},
{64892,64893,1,4867,3},
{64894,64894,1,4870,3},
{64895,64895,1,4873,3},
{64896,64896,1,4876,3},
{64897,64897,1,4879,3},
{64898,64898,1,4882,3},
{64899,64900,1,4885,3},
{64901,64902,1,4888,3},
{64903,64904,1,4891,3},
{64905,64905,1,4894,3},
{64906,64906,1,4897,3},
{64907,64907,1,4900,3},
{64908,64908,1,4903,3},
{64909,64909,1,4906,3},
{64910,64910,1,4909,3},
{64911,64911,1,4912,3},
{64912,64913,4,4915,0},
{64914,64914,1,4915,3},
{64915,64915,1,4918,3},
{64916,64916,1,4921,3},
{64917,64917,1,4924,3},
{64918,64918,1,4927,3},
{64919,64920,1,4930,3},
{64921,64921,1,4933,3},
{64922,64922,1,4936,3},
{64923,64923,1,4939,3},
{64924,64925,1,4942,3},
{64926,64926,1,4945,3},
{64927,64927,1,4948,3},
{64928,64928,1,4951,3},
{64929,64929,1,4954,3},
{64930,64930,1,4957,3},
{64931,64931,1,4960,3},
{64932,64932,1,4963,3},
{64933,64933,1,4966,3},
{64934,64934,1,4969,3},
{64935,64935,1,4972,3},
{64936,64936,1,4975,3},
{64937,64937,1,4978,3},
{64938,64938,1,4981,3},
{64939,64939,1,4984,3},
{64940,64940,1,4987,3},
{64941,64941,1,4990,3},
{64942,64942,1,4993,3},
{64943,64943,1,4996,3},
{64944,64944,1,4999,3},
{64945,64945,1,5002,3},
{64946,64946,1,5005,3},
{64947,64947,1,5008,3},
{64948,64948,1,5011,3},
{64949,64949,1,5014,3},
{64950,64950,1,5017,3},
{64951,64951,1,5020,3},
{64952,64952,1,5023,3},
{64953,64953,1,5026,3},
{64954,64954,1,5029,3},
{64955,64955,1,5032,3},
{64956,64956,1,5035,3},
{64957,64957,1,5038,3},
{64958,64958,1,5041,3},
{64959,64959,1,5044,3},
{64960,64960,1,5047,3},
{64961,64961,1,5050,3},
{64962,64962,1,5053,3},
{64963,64963,1,5056,3},
{64964,64964,1,5059,3},
{64965,64965,1,5062,3},
{64966,64966,1,5065,3},
{64967,64967,1,5068,3},
{64968,64975,4,5071,0},
{64976,65007,4,5071,0},
{65008,65008,1,5071,3},
{65009,65009,1,5074,3},
{65010,65010,1,5077,4},
{65011,65011,1,5081,4},
{65012,65012,1,5085,4},
{65013,65013,1,5089,4},
{65014,65014,1,5093,4},
{65015,65015,1,5097,4},
{65016,65016,1,5101,4},
{65017,65017,1,5105,3},
{65018,65018,6,5108,18},
{65019,65019,6,5126,8},
{65020,65020,1,5134,4},
{65021,65021,0,5138,0},
{65022,65023,4,5138,0},
{65024,65039,2,5138,0},
{65040,65040,6,5138,1},
{65041,65041,1,5139,1},
{65042,65042,4,5140,0},
{65043,65043,6,5140,1},
{65044,65044,6,5141,1},
{65045,65045,6,5142,1},
{65046,65046,6,5143,1},
{65047,65047,1,5144,1},
{65048,65048,1,5145,1},
{65049,65049,4,5146,0},
{65050,65055,4,5146,0},
{65056,65059,0,5146,0},
{65060,65062,0,5146,0},
{65063,65069,0,5146,0},
{65070,65071,0,5146,0},
{65072,65072,4,5146,0},
{65073,65073,1,5146,1},
{65074,65074,1,5147,1},
{65075,65076,6,5148,1},
{65077,65077,6,5149,1},
{65078,65078,6,5150,1},
{65079,65079,6,5151,1},
{65080,65080,6,5152,1},
{65081,65081,1,5153,1},
{65082,65082,1,5154,1},
{65083,65083,1,5155,1},
{65084,65084,1,5156,1},
{65085,65085,1,5157,1},
{65086,65086,1,5158,1},
{65087,65087,1,5159,1},
{65088,65088,1,5160,1},
{65089,65089,1,5161,1},
{65090,65090,1,5162,1},
{65091,65091,1,5163,1},
{65092,65092,1,5164,1},
{65093,65094,0,5165,0},
{65095,65095,6,5165,1},
{65096,65096,6,5166,1},
{65097,65100,6,5167,2},
{65101,65103,6,5169,1},
{65104,65104,6,5170,1},
{65105,65105,1,5171,1},
{65106,65106,4,5172,0},
{65107,65107,4,5172,0},
{65108,65108,6,5172,1},
{65109,65109,6,5173,1},
{65110,65110,6,5174,1},
{65111,65111,6,5175,1},
{65112,65112,1,5176,1},
{65113,65113,6,5177,1},
{65114,65114,6,5178,1},
{65115,65115,6,5179,1},
{65116,65116,6,5180,1},
{65117,65117,1,5181,1},
{65118,65118,1,5182,1},
{65119,65119,6,5183,1},
{65120,65120,6,5184,1},
{65121,65121,6,5185,1},
{65122,65122,6,5186,1},
{65123,65123,1,5187,1},
{65124,65124,6,5188,1},
{65125,65125,6,5189,1},
{65126,65126,6,5190,1},
{65127,65127,4,5191,0},
{65128,65128,6,5191,1},
{65129,65129,6,5192,1},
{65130,65130,6,5193,1},
{65131,65131,6,5194,1},
{65132,65135,4,5195,0},
{65136,65136,6,5195,2},
{65137,65137,1,5197,2},
{65138,65138,6,5199,2},
{65139,65139,0,5201,0},
{65140,65140,6,5201,2},
{65141,65141,4,5203,0},
{65142,65142,6,5203,2},
{65143,65143,1,5205,2},
{65144,65144,6,5207,2},
{65145,65145,1,5209,2},
{65146,65146,6,5211,2},
{65147,65147,1,5213,2},
{65148,65148,6,5215,2},
{65149,65149,1,5217,2},
{65150,65150,6,5219,2},
{65151,65151,1,5221,2},
{65152,65152,1,5223,1},
{65153,65154,1,5224,1},
{65155,65156,1,5225,1},
{65157,65158,1,5226,1},
{65159,65160,1,5227,1},
{65161,65164,1,5228,1},
{65165,65166,1,5229,1},
{65167,65170,1,5230,1},
{65171,65172,1,5231,1},
{65173,65176,1,5232,1},
{65177,65180,1,5233,1},
{65181,65184,1,5234,1},
{65185,65188,1,5235,1},
{65189,65192,1,5236,1},
{65193,65194,1,5237,1},
{65195,65196,1,5238,1},
{65197,65198,1,5239,1},
{65199,65200,1,5240,1},
{65201,65204,1,5241,1},
{65205,65208,1,5242,1},
{65209,65212,1,5243,1},
{65213,65216,1,5244,1},
{65217,65220,1,5245,1},
{65221,65224,1,5246,1},
{65225,65228,1,5247,1},
{65229,65232,1,5248,1},
{65233,65236,1,5249,1},
{65237,65240,1,5250,1},
{65241,65244,1,5251,1},
{65245,65248,1,5252,1},
{65249,65252,1,5253,1},
{65253,65256,1,5254,1},
{65257,65260,1,5255,1},
{65261,65262,1,5256,1},
{65263,65264,1,5257,1},
{65265,65268,1,5258,1},
{65269,65270,1,5259,2},
{65271,65272,1,5261,2},
{65273,65274,1,5263,2},
{65275,65276,1,5265,2},
{65277,65278,4,5267,0},
{65279,65279,2,5267,0},
{65280,65280,4,5267,0},
{65281,65281,6,5267,1},
{65282,65282,6,5268,1},
{65283,65283,6,5269,1},
{65284,65284,6,5270,1},
{65285,65285,6,5271,1},
{65286,65286,6,5272,1},
{65287,65287,6,5273,1},
{65288,65288,6,5274,1},
{65289,65289,6,5275,1},
{65290,65290,6,5276,1},
{65291,65291,6,5277,1},
{65292,65292,6,5278,1},
{65293,65293,1,5279,1},
{65294,65294,1,5280,1},
{65295,65295,6,5281,1},
{65296,65296,1,5282,1},
{65297,65297,1,5283,1},
{65298,65298,1,5284,1},
{65299,65299,1,5285,1},
{65300,65300,1,5286,1},
{65301,65301,1,5287,1},
{65302,65302,1,5288,1},
{65303,65303,1,5289,1},
{65304,65304,1,5290,1},
{65305,65305,1,5291,1},
{65306,65306,6,5292,1},
{65307,65307,6,5293,1},
{65308,65308,6,5294,1},
{65309,65309,6,5295,1},
{65310,65310,6,5296,1},
{65311,65311,6,5297,1},
{65312,65312,6,5298,1},
{65313,65313,1,5299,1},
{65314,65314,1,5300,1},
{65315,65315,1,5301,1},
{65316,65316,1,5302,1},
{65317,65317,1,5303,1},
{65318,65318,1,5304,1},
{65319,65319,1,5305,1},
{65320,65320,1,5306,1},
{65321,65321,1,5307,1},
{65322,65322,1,5308,1},
{65323,65323,1,5309,1},
{65324,65324,1,5310,1},
{65325,65325,1,5311,1},
{65326,65326,1,5312,1},
{65327,65327,1,5313,1},
{65328,65328,1,5314,1},
{65329,65329,1,5315,1},
{65330,65330,1,5316,1},
{65331,65331,1,5317,1},
{65332,65332,1,5318,1},
{65333,65333,1,5319,1},
{65334,65334,1,5320,1},
{65335,65335,1,5321,1},
{65336,65336,1,5322,1},
{65337,65337,1,5323,1},
{65338,65338,1,5324,1},
{65339,65339,6,5325,1},
{65340,65340,6,5326,1},
{65341,65341,6,5327,1},
{65342,65342,6,5328,1},
{65343,65343,6,5329,1},
{65344,65344,6,5330,1},
{65345,65345,1,5331,1},
{65346,65346,1,5332,1},
{65347,65347,1,5333,1},
{65348,65348,1,5334,1},
{65349,65349,1,5335,1},
{65350,65350,1,5336,1},
{65351,65351,1,5337,1},
{65352,65352,1,5338,1},
{65353,65353,1,5339,1},
{65354,65354,1,5340,1},
{65355,65355,1,5341,1},
{65356,65356,1,5342,1},
{65357,65357,1,5343,1},
{65358,65358,1,5344,1},
{65359,65359,1,5345,1},
{65360,65360,1,5346,1},
{65361,65361,1,5347,1},
{65362,65362,1,5348,1},
{65363,65363,1,5349,1},
{65364,65364,1,5350,1},
{65365,65365,1,5351,1},
{65366,65366,1,5352,1},
{65367,65367,1,5353,1},
{65368,65368,1,5354,1},
{65369,65369,1,5355,1},
{65370,65370,1,5356,1},
{65371,65371,6,5357,1},
{65372,65372,6,5358,1},
{65373,65373,6,5359,1},
{65374,65374,6,5360,1},
{65375,65375,1,5361,1},
{65376,65376,1,5362,1},
{65377,65377,1,5363,1},
{65378,65378,1,5364,1},
{65379,65379,1,5365,1},
{65380,65380,1,5366,1},
{65381,65381,1,5367,1},
{65382,65382,1,5368,1},
{65383,65383,1,5369,1},
{65384,65384,1,5370,1},
{65385,65385,1,5371,1},
{65386,65386,1,5372,1},
{65387,65387,1,5373,1},
{65388,65388,1,5374,1},
{65389,65389,1,5375,1},
{65390,65390,1,5376,1},
{65391,65391,1,5377,1},
{65392,65392,1,5378,1},
{65393,65393,1,5379,1},
{65394,65394,1,5380,1},
{65395,65395,1,5381,1},
{65396,65396,1,5382,1},
{65397,65397,1,5383,1},
{65398,65398,1,5384,1},
{65399,65399,1,5385,1},
{65400,65400,1,5386,1},
{65401,65401,1,5387,1},
{65402,65402,1,5388,1},
{65403,65403,1,5389,1},
{65404,65404,1,5390,1},
{65405,65405,1,5391,1},
{65406,65406,1,5392,1},
{65407,65407,1,5393,1},
{65408,65408,1,5394,1},
{65409,65409,1,5395,1},
{65410,65410,1,5396,1},
{65411,65411,1,5397,1},
{65412,65412,1,5398,1},
{65413,65413,1,5399,1},
{65414,65414,1,5400,1},
{65415,65415,1,5401,1},
{65416,65416,1,5402,1},
{65417,65417,1,5403,1},
{65418,65418,1,5404,1},
{65419,65419,1,5405,1},
{65420,65420,1,5406,1},
{65421,65421,1,5407,1},
{65422,65422,1,5408,1},
{65423,65423,1,5409,1},
{65424,65424,1,5410,1},
{65425,65425,1,5411,1},
{65426,65426,1,5412,1},
{65427,65427,1,5413,1},
{65428,65428,1,5414,1},
{65429,65429,1,5415,1},
{65430,65430,1,5416,1},
{65431,65431,1,5417,1},
{65432,65432,1,5418,1},
{65433,65433,1,5419,1},
{65434,65434,1,5420,1},
{65435,65435,1,5421,1},
{65436,65436,1,5422,1},
{65437,65437,1,5423,1},
{65438,65438,1,5424,1},
{65439,65439,1,5425,1},
{65440,65440,4,5426,0},
{65441,65441,1,5426,1},
{65442,65442,1,5427,1},
{65443,65443,1,5428,1},
{65444,65444,1,5429,1},
{65445,65445,1,5430,1},
{65446,65446,1,5431,1},
{65447,65447,1,5432,1},
{65448,65448,1,5433,1},
{65449,65449,1,5434,1},
{65450,65450,1,5435,1},
{65451,65451,1,5436,1},
{65452,65452,1,5437,1},
{65453,65453,1,5438,1},
{65454,65454,1,5439,1},
{65455,65455,1,5440,1},
{65456,65456,1,5441,1},
{65457,65457,1,5442,1},
{65458,65458,1,5443,1},
{65459,65459,1,5444,1},
{65460,65460,1,5445,1},
{65461,65461,1,5446,1},
{65462,65462,1,5447,1},
{65463,65463,1,5448,1},
{65464,65464,1,5449,1},
{65465,65465,1,5450,1},
{65466,65466,1,5451,1},
{65467,65467,1,5452,1},
{65468,65468,1,5453,1},
{65469,65469,1,5454,1},
{65470,65470,1,5455,1},
{65471,65473,4,5456,0},
{65474,65474,1,5456,1},
{65475,65475,1,5457,1},
{65476,65476,1,5458,1},
{65477,65477,1,5459,1},
{65478,65478,1,5460,1},
{65479,65479,1,5461,1},
{65480,65481,4,5462,0},
{65482,65482,1,5462,1},
{65483,65483,1,5463,1},
{65484,65484,1,5464,1},
{65485,65485,1,5465,1},
{65486,65486,1,5466,1},
{65487,65487,1,5467,1},
{65488,65489,4,5468,0},
{65490,65490,1,5468,1},
{65491,65491,1,5469,1},
{65492,65492,1,5470,1},
{65493,65493,1,5471,1},
{65494,65494,1,5472,1},
{65495,65495,1,5473,1},
{65496,65497,4,5474,0},
{65498,65498,1,5474,1},
{65499,65499,1,5475,1},
{65500,65500,1,5476,1},
{65501,65503,4,5477,0},
{65504,65504,1,5477,1},
{65505,65505,1,5478,1},
{65506,65506,1,5479,1},
{65507,65507,6,5480,2},
{65508,65508,1,5482,1},
{65509,65509,1,5483,1},
{65510,65510,1,5484,1},
{65511,65511,4,5485,0},
{65512,65512,1,5485,1},
{65513,65513,1,5486,1},
{65514,65514,1,5487,1},
{65515,65515,1,5488,1},
{65516,65516,1,5489,1},
{65517,65517,1,5490,1},
{65518,65518,1,5491,1},
{65519,65528,4,5492,0},
{65529,65531,4,5492,0},
{65532,65532,4,5492,0},
{65533,65533,4,5492,0},
{65534,65535,4,5492,0},
{65536,65547,0,5492,0},
{65548,65548,4,5492,0},
{65549,65574,0,5492,0},
{65575,65575,4,5492,0},
{65576,65594,0,5492,0},
{65595,65595,4,5492,0},
{65596,65597,0,5492,0},
{65598,65598,4,5492,0},
{65599,65613,0,5492,0},
{65614,65615,4,5492,0},
{65616,65629,0,5492,0},
{65630,65663,4,5492,0},
{65664,65786,0,5492,0},
{65787,65791,4,5492,0},
{65792,65794,0,5492,0},
{65795,65798,4,5492,0},
{65799,65843,0,5492,0},
{65844,65846,4,5492,0},
{65847,65855,0,5492,0},
{65856,65930,0,5492,0},
{65931,65932,0,5492,0},
{65933,65934,0,5492,0},
{65935,65935,4,5492,0},
{65936,65947,0,5492,0},
{65948,65948,0,5492,0},
{65949,65951,4,5492,0},
{65952,65952,0,5492,0},
{65953,65999,4,5492,0},
{66000,66044,0,5492,0},
{66045,66045,0,5492,0},
{66046,66175,4,5492,0},
{66176,66204,0,5492,0},
{66205,66207,4,5492,0},
{66208,66256,0,5492,0},
{66257,66271,4,5492,0},
{66272,66272,0,5492,0},
{66273,66299,0,5492,0},
{66300,66303,4,5492,0},
{66304,66334,0,5492,0},
{66335,66335,0,5492,0},
{66336,66339,0,5492,0},
{66340,66348,4,5492,0},
{66349,66351,0,5492,0},
{66352,66368,0,5492,0},
{66369,66369,0,5492,0},
{66370,66377,0,5492,0},
{66378,66378,0,5492,0},
{66379,66383,4,5492,0},
{66384,66426,0,5492,0},
{66427,66431,4,5492,0},
{66432,66461,0,5492,0},
{66462,66462,4,5492,0},
{66463,66463,0,5492,0},
{66464,66499,0,5492,0},
{66500,66503,4,5492,0},
{66504,66511,0,5492,0},
{66512,66517,0,5492,0},
{66518,66559,4,5492,0},
{66560,66560,1,5492,1},
{66561,66561,1,5493,1},
{66562,66562,1,5494,1},
{66563,66563,1,5495,1},
{66564,66564,1,5496,1},
{66565,66565,1,5497,1},
{66566,66566,1,5498,1},
{66567,66567,1,5499,1},
{66568,66568,1,5500,1},
{66569,66569,1,5501,1},
{66570,66570,1,5502,1},
{66571,66571,1,5503,1},
{66572,66572,1,5504,1},
{66573,66573,1,5505,1},
{66574,66574,1,5506,1},
{66575,66575,1,5507,1},
{66576,66576,1,5508,1},
{66577,66577,1,5509,1},
{66578,66578,1,5510,1},
{66579,66579,1,5511,1},
{66580,66580,1,5512,1},
{66581,66581,1,5513,1},
{66582,66582,1,5514,1},
{66583,66583,1,5515,1},
{66584,66584,1,5516,1},
{66585,66585,1,5517,1},
{66586,66586,1,5518,1},
{66587,66587,1,5519,1},
{66588,66588,1,5520,1},
{66589,66589,1,5521,1},
{66590,66590,1,5522,1},
{66591,66591,1,5523,1},
{66592,66592,1,5524,1},
{66593,66593,1,5525,1},
{66594,66594,1,5526,1},
{66595,66595,1,5527,1},
{66596,66596,1,5528,1},
{66597,66597,1,5529,1},
{66598,66598,1,5530,1},
{66599,66599,1,5531,1},
{66600,66637,0,5532,0},
{66638,66717,0,5532,0},
{66718,66719,4,5532,0},
{66720,66729,0,5532,0},
{66730,66735,4,5532,0},
{66736,66736,1,5532,1},
{66737,66737,1,5533,1},
{66738,66738,1,5534,1},
{66739,66739,1,5535,1},
{66740,66740,1,5536,1},
{66741,66741,1,5537,1},
{66742,66742,1,5538,1},
{66743,66743,1,5539,1},
{66744,66744,1,5540,1},
{66745,66745,1,5541,1},
{66746,66746,1,5542,1},
{66747,66747,1,5543,1},
{66748,66748,1,5544,1},
{66749,66749,1,5545,1},
{66750,66750,1,5546,1},
{66751,66751,1,5547,1},
{66752,66752,1,5548,1},
{66753,66753,1,5549,1},
{66754,66754,1,5550,1},
{66755,66755,1,5551,1},
{66756,66756,1,5552,1},
{66757,66757,1,5553,1},
{66758,66758,1,5554,1},
{66759,66759,1,5555,1},
{66760,66760,1,5556,1},
{66761,66761,1,5557,1},
{66762,66762,1,5558,1},
{66763,66763,1,5559,1},
{66764,66764,1,5560,1},
{66765,66765,1,5561,1},
{66766,66766,1,5562,1},
{66767,66767,1,5563,1},
{66768,66768,1,5564,1},
{66769,66769,1,5565,1},
{66770,66770,1,5566,1},
{66771,66771,1,5567,1},
{66772,66775,4,5568,0},
{66776,66811,0,5568,0},
{66812,66815,4,5568,0},
{66816,66855,0,5568,0},
{66856,66863,4,5568,0},
{66864,66915,0,5568,0},
{66916,66926,4,5568,0},
{66927,66927,0,5568,0},
{66928,67071,4,5568,0},
{67072,67382,0,5568,0},
{67383,67391,4,5568,0},
{67392,67413,0,5568,0},
{67414,67423,4,5568,0},
{67424,67431,0,5568,0},
{67432,67583,4,5568,0},
{67584,67589,0,5568,0},
{67590,67591,4,5568,0},
{67592,67592,0,5568,0},
{67593,67593,4,5568,0},
{67594,67637,0,5568,0},
{67638,67638,4,5568,0},
{67639,67640,0,5568,0},
{67641,67643,4,5568,0},
{67644,67644,0,5568,0},
{67645,67646,4,5568,0},
{67647,67647,0,5568,0},
{67648,67669,0,5568,0},
{67670,67670,4,5568,0},
{67671,67679,0,5568,0},
{67680,67702,0,5568,0},
{67703,67711,0,5568,0},
{67712,67742,0,5568,0},
{67743,67750,4,5568,0},
{67751,67759,0,5568,0},
{67760,67807,4,5568,0},
{67808,67826,0,5568,0},
{67827,67827,4,5568,0},
{67828,67829,0,5568,0},
{67830,67834,4,5568,0},
{67835,67839,0,5568,0},
{67840,67861,0,5568,0},
{67862,67865,0,5568,0},
{67866,67867,0,5568,0},
{67868,67870,4,5568,0},
{67871,67871,0,5568,0},
{67872,67897,0,5568,0},
{67898,67902,4,5568,0},
{67903,67903,0,5568,0},
{67904,67967,4,5568,0},
{67968,68023,0,5568,0},
{68024,68027,4,5568,0},
{68028,68029,0,5568,0},
{68030,68031,0,5568,0},
{68032,68047,0,5568,0},
{68048,68049,4,5568,0},
{68050,68095,0,5568,0},
{68096,68099,0,5568,0},
{68100,68100,4,5568,0},
{68101,68102,0,5568,0},
{68103,68107,4,5568,0},
{68108,68115,0,5568,0},
{68116,68116,4,5568,0},
{68117,68119,0,5568,0},
{68120,68120,4,5568,0},
{68121,68147,0,5568,0},
{68148,68149,0,5568,0},
{68150,68151,4,5568,0},
{68152,68154,0,5568,0},
{68155,68158,4,5568,0},
{68159,68159,0,5568,0},
{68160,68167,0,5568,0},
{68168,68168,0,5568,0},
{68169,68175,4,5568,0},
{68176,68184,0,5568,0},
{68185,68191,4,5568,0},
{68192,68220,0,5568,0},
{68221,68223,0,5568,0},
{68224,68252,0,5568,0},
{68253,68255,0,5568,0},
{68256,68287,4,5568,0},
{68288,68295,0,5568,0},
{68296,68296,0,5568,0},
{68297,68326,0,5568,0},
{68327,68330,4,5568,0},
{68331,68342,0,5568,0},
{68343,68351,4,5568,0},
{68352,68405,0,5568,0},
{68406,68408,4,5568,0},
{68409,68415,0,5568,0},
{68416,68437,0,5568,0},
{68438,68439,4,5568,0},
{68440,68447,0,5568,0},
{68448,68466,0,5568,0},
{68467,68471,4,5568,0},
{68472,68479,0,5568,0},
{68480,68497,0,5568,0},
{68498,68504,4,5568,0},
{68505,68508,0,5568,0},
{68509,68520,4,5568,0},
{68521,68527,0,5568,0},
{68528,68607,4,5568,0},
{68608,68680,0,5568,0},
{68681,68735,4,5568,0},
{68736,68736,1,5568,1},
{68737,68737,1,5569,1},
{68738,68738,1,5570,1},
{68739,68739,1,5571,1},
{68740,68740,1,5572,1},
{68741,68741,1,5573,1},
{68742,68742,1,5574,1},
{68743,68743,1,5575,1},
{68744,68744,1,5576,1},
{68745,68745,1,5577,1},
{68746,68746,1,5578,1},
{68747,68747,1,5579,1},
{68748,68748,1,5580,1},
{68749,68749,1,5581,1},
{68750,68750,1,5582,1},
{68751,68751,1,5583,1},
{68752,68752,1,5584,1},
{68753,68753,1,5585,1},
{68754,68754,1,5586,1},
{68755,68755,1,5587,1},
{68756,68756,1,5588,1},
{68757,68757,1,5589,1},
{68758,68758,1,5590,1},
{68759,68759,1,5591,1},
{68760,68760,1,5592,1},
{68761,68761,1,5593,1},
{68762,68762,1,5594,1},
{68763,68763,1,5595,1},
{68764,68764,1,5596,1},
{68765,68765,1,5597,1},
{68766,68766,1,5598,1},
{68767,68767,1,5599,1},
{68768,68768,1,5600,1},
{68769,68769,1,5601,1},
{68770,68770,1,5602,1},
{68771,68771,1,5603,1},
{68772,68772,1,5604,1},
{68773,68773,1,5605,1},
{68774,68774,1,5606,1},
{68775,68775,1,5607,1},
{68776,68776,1,5608,1},
{68777,68777,1,5609,1},
{68778,68778,1,5610,1},
{68779,68779,1,5611,1},
{68780,68780,1,5612,1},
{68781,68781,1,5613,1},
{68782,68782,1,5614,1},
{68783,68783,1,5615,1},
{68784,68784,1,5616,1},
{68785,68785,1,5617,1},
{68786,68786,1,5618,1},
{68787,68799,4,5619,0},
{68800,68850,0,5619,0},
{68851,68857,4,5619,0},
{68858,68863,0,5619,0},
{68864,68903,0,5619,0},
{68904,68911,4,5619,0},
{68912,68921,0,5619,0},
{68922,69215,4,5619,0},
{69216,69246,0,5619,0},
{69247,69247,4,5619,0},
{69248,69289,0,5619,0},
{69290,69290,4,5619,0},
{69291,69292,0,5619,0},
{69293,69293,0,5619,0},
{69294,69295,4,5619,0},
{69296,69297,0,5619,0},
{69298,69375,4,5619,0},
{69376,69404,0,5619,0},
{69405,69414,0,5619,0},
{69415,69415,0,5619,0},
{69416,69423,4,5619,0},
{69424,69456,0,5619,0},
{69457,69465,0,5619,0},
{69466,69551,4,5619,0},
{69552,69572,0,5619,0},
{69573,69579,0,5619,0},
{69580,69599,4,5619,0},
{69600,69622,0,5619,0},
{69623,69631,4,5619,0},
{69632,69702,0,5619,0},
{69703,69709,0,5619,0},
{69710,69713,4,5619,0},
{69714,69733,0,5619,0},
{69734,69743,0,5619,0},
{69744,69758,4,5619,0},
{69759,69759,0,5619,0},
{69760,69818,0,5619,0},
{69819,69820,0,5619,0},
{69821,69821,4,5619,0},
{69822,69825,0,5619,0},
{69826,69836,4,5619,0},
{69837,69837,4,5619,0},
{69838,69839,4,5619,0},
{69840,69864,0,5619,0},
{69865,69871,4,5619,0},
{69872,69881,0,5619,0},
{69882,69887,4,5619,0},
{69888,69940,0,5619,0},
{69941,69941,4,5619,0},
{69942,69951,0,5619,0},
{69952,69955,0,5619,0},
{69956,69958,0,5619,0},
{69959,69959,0,5619,0},
{69960,69967,4,5619,0},
{69968,70003,0,5619,0},
{70004,70005,0,5619,0},
{70006,70006,0,5619,0},
{70007,70015,4,5619,0},
{70016,70084,0,5619,0},
{70085,70088,0,5619,0},
{70089,70092,0,5619,0},
{70093,70093,0,5619,0},
{70094,70095,0,5619,0},
{70096,70105,0,5619,0},
{70106,70106,0,5619,0},
{70107,70107,0,5619,0},
{70108,70108,0,5619,0},
{70109,70111,0,5619,0},
{70112,70112,4,5619,0},
{70113,70132,0,5619,0},
{70133,70143,4,5619,0},
{70144,70161,0,5619,0},
{70162,70162,4,5619,0},
{70163,70199,0,5619,0},
{70200,70205,0,5619,0},
{70206,70206,0,5619,0},
{70207,70271,4,5619,0},
{70272,70278,0,5619,0},
{70279,70279,4,5619,0},
{70280,70280,0,5619,0},
{70281,70281,4,5619,0},
{70282,70285,0,5619,0},
{70286,70286,4,5619,0},
{70287,70301,0,5619,0},
{70302,70302,4,5619,0},
{70303,70312,0,5619,0},
{70313,70313,0,5619,0},
{70314,70319,4,5619,0},
{70320,70378,0,5619,0},
{70379,70383,4,5619,0},
{70384,70393,0,5619,0},
{70394,70399,4,5619,0},
{70400,70400,0,5619,0},
{70401,70403,0,5619,0},
{70404,70404,4,5619,0},
{70405,70412,0,5619,0},
{70413,70414,4,5619,0},
{70415,70416,0,5619,0},
{70417,70418,4,5619,0},
{70419,70440,0,5619,0},
{70441,70441,4,5619,0},
{70442,70448,0,5619,0},
{70449,70449,4,5619,0},
{70450,70451,0,5619,0},
{70452,70452,4,5619,0},
{70453,70457,0,5619,0},
{70458,70458,4,5619,0},
{70459,70459,0,5619,0},
{70460,70468,0,5619,0},
{70469,70470,4,5619,0},
{70471,70472,0,5619,0},
{70473,70474,4,5619,0},
{70475,70477,0,5619,0},
{70478,70479,4,5619,0},
{70480,70480,0,5619,0},
{70481,70486,4,5619,0},
{70487,70487,0,5619,0},
{70488,70492,4,5619,0},
{70493,70499,0,5619,0},
{70500,70501,4,5619,0},
{70502,70508,0,5619,0},
{70509,70511,4,5619,0},
{70512,70516,0,5619,0},
{70517,70655,4,5619,0},
{70656,70730,0,5619,0},
{70731,70735,0,5619,0},
{70736,70745,0,5619,0},
{70746,70746,0,5619,0},
{70747,70747,0,5619,0},
{70748,70748,4,5619,0},
{70749,70749,0,5619,0},
{70750,70750,0,5619,0},
{70751,70751,0,5619,0},
{70752,70753,0,5619,0},
{70754,70783,4,5619,0},
{70784,70853,0,5619,0},
{70854,70854,0,5619,0},
{70855,70855,0,5619,0},
{70856,70863,4,5619,0},
{70864,70873,0,5619,0},
{70874,71039,4,5619,0},
{71040,71093,0,5619,0},
{71094,71095,4,5619,0},
{71096,71104,0,5619,0},
{71105,71113,0,5619,0},
{71114,71127,0,5619,0},
{71128,71133,0,5619,0},
{71134,71167,4,5619,0},
{71168,71232,0,5619,0},
{71233,71235,0,5619,0},
{71236,71236,0,5619,0},
{71237,71247,4,5619,0},
{71248,71257,0,5619,0},
{71258,71263,4,5619,0},
{71264,71276,0,5619,0},
{71277,71295,4,5619,0},
{71296,71351,0,5619,0},
{71352,71352,0,5619,0},
{71353,71359,4,5619,0},
{71360,71369,0,5619,0},
{71370,71423,4,5619,0},
{71424,71449,0,5619,0},
{71450,71450,0,5619,0},
{71451,71452,4,5619,0},
{71453,71467,0,5619,0},
{71468,71471,4,5619,0},
{71472,71481,0,5619,0},
{71482,71487,0,5619,0},
{71488,71679,4,5619,0},
{71680,71738,0,5619,0},
{71739,71739,0,5619,0},
{71740,71839,4,5619,0},
{71840,71840,1,5619,1},
{71841,71841,1,5620,1},
{71842,71842,1,5621,1},
{71843,71843,1,5622,1},
{71844,71844,1,5623,1},
{71845,71845,1,5624,1},
{71846,71846,1,5625,1},
{71847,71847,1,5626,1},
{71848,71848,1,5627,1},
{71849,71849,1,5628,1},
{71850,71850,1,5629,1},
{71851,71851,1,5630,1},
{71852,71852,1,5631,1},
{71853,71853,1,5632,1},
{71854,71854,1,5633,1},
{71855,71855,1,5634,1},
{71856,71856,1,5635,1},
{71857,71857,1,5636,1},
{71858,71858,1,5637,1},
{71859,71859,1,5638,1},
{71860,71860,1,5639,1},
{71861,71861,1,5640,1},
{71862,71862,1,5641,1},
{71863,71863,1,5642,1},
{71864,71864,1,5643,1},
{71865,71865,1,5644,1},
{71866,71866,1,5645,1},
{71867,71867,1,5646,1},
{71868,71868,1,5647,1},
{71869,71869,1,5648,1},
{71870,71870,1,5649,1},
{71871,71871,1,5650,1},
{71872,71913,0,5651,0},
{71914,71922,0,5651,0},
{71923,71934,4,5651,0},
{71935,71935,0,5651,0},
{71936,71942,0,5651,0},
{71943,71944,4,5651,0},
{71945,71945,0,5651,0},
{71946,71947,4,5651,0},
{71948,71955,0,5651,0},
{71956,71956,4,5651,0},
{71957,71958,0,5651,0},
{71959,71959,4,5651,0},
{71960,71989,0,5651,0},
{71990,71990,4,5651,0},
{71991,71992,0,5651,0},
{71993,71994,4,5651,0},
{71995,72003,0,5651,0},
{72004,72006,0,5651,0},
{72007,72015,4,5651,0},
{72016,72025,0,5651,0},
{72026,72095,4,5651,0},
{72096,72103,0,5651,0},
{72104,72105,4,5651,0},
{72106,72151,0,5651,0},
{72152,72153,4,5651,0},
{72154,72161,0,5651,0},
{72162,72162,0,5651,0},
{72163,72164,0,5651,0},
{72165,72191,4,5651,0},
{72192,72254,0,5651,0},
{72255,72262,0,5651,0},
{72263,72263,0,5651,0},
{72264,72271,4,5651,0},
{72272,72323,0,5651,0},
{72324,72325,0,5651,0},
{72326,72345,0,5651,0},
{72346,72348,0,5651,0},
{72349,72349,0,5651,0},
{72350,72354,0,5651,0},
{72355,72383,4,5651,0},
{72384,72440,0,5651,0},
{72441,72703,4,5651,0},
{72704,72712,0,5651,0},
{72713,72713,4,5651,0},
{72714,72758,0,5651,0},
{72759,72759,4,5651,0},
{72760,72768,0,5651,0},
{72769,72773,0,5651,0},
{72774,72783,4,5651,0},
{72784,72793,0,5651,0},
{72794,72812,0,5651,0},
{72813,72815,4,5651,0},
{72816,72817,0,5651,0},
{72818,72847,0,5651,0},
{72848,72849,4,5651,0},
{72850,72871,0,5651,0},
{72872,72872,4,5651,0},
{72873,72886,0,5651,0},
{72887,72959,4,5651,0},
{72960,72966,0,5651,0},
{72967,72967,4,5651,0},
{72968,72969,0,5651,0},
{72970,72970,4,5651,0},
{72971,73014,0,5651,0},
{73015,73017,4,5651,0},
{73018,73018,0,5651,0},
{73019,73019,4,5651,0},
{73020,73021,0,5651,0},
{73022,73022,4,5651,0},
{73023,73031,0,5651,0},
{73032,73039,4,5651,0},
{73040,73049,0,5651,0},
{73050,73055,4,5651,0},
{73056,73061,0,5651,0},
{73062,73062,4,5651,0},
{73063,73064,0,5651,0},
{73065,73065,4,5651,0},
{73066,73102,0,5651,0},
{73103,73103,4,5651,0},
{73104,73105,0,5651,0},
{73106,73106,4,5651,0},
{73107,73112,0,5651,0},
{73113,73119,4,5651,0},
{73120,73129,0,5651,0},
{73130,73439,4,5651,0},
{73440,73462,0,5651,0},
{73463,73464,0,5651,0},
{73465,73647,4,5651,0},
{73648,73648,0,5651,0},
{73649,73663,4,5651,0},
{73664,73713,0,5651,0},
{73714,73726,4,5651,0},
{73727,73727,0,5651,0},
{73728,74606,0,5651,0},
{74607,74648,0,5651,0},
{74649,74649,0,5651,0},
{74650,74751,4,5651,0},
{74752,74850,0,5651,0},
{74851,74862,0,5651,0},
{74863,74863,4,5651,0},
{74864,74867,0,5651,0},
{74868,74868,0,5651,0},
{74869,74879,4,5651,0},
{74880,75075,0,5651,0},
{75076,77823,4,5651,0},
{77824,78894,0,5651,0},
{78895,78895,4,5651,0},
{78896,78904,4,5651,0},
{78905,82943,4,5651,0},
{82944,83526,0,5651,0},
{83527,92159,4,5651,0},
{92160,92728,0,5651,0},
{92729,92735,4,5651,0},
{92736,92766,0,5651,0},
{92767,92767,4,5651,0},
{92768,92777,0,5651,0},
{92778,92781,4,5651,0},
{92782,92783,0,5651,0},
{92784,92879,4,5651,0},
{92880,92909,0,5651,0},
{92910,92911,4,5651,0},
{92912,92916,0,5651,0},
{92917,92917,0,5651,0},
{92918,92927,4,5651,0},
{92928,92982,0,5651,0},
{92983,92991,0,5651,0},
{92992,92995,0,5651,0},
{92996,92997,0,5651,0},
{92998,93007,4,5651,0},
{93008,93017,0,5651,0},
{93018,93018,4,5651,0},
{93019,93025,0,5651,0},
{93026,93026,4,5651,0},
{93027,93047,0,5651,0},
{93048,93052,4,5651,0},
{93053,93071,0,5651,0},
{93072,93759,4,5651,0},
{93760,93760,1,5651,1},
{93761,93761,1,5652,1},
{93762,93762,1,5653,1},
{93763,93763,1,5654,1},
{93764,93764,1,5655,1},
{93765,93765,1,5656,1},
{93766,93766,1,5657,1},
{93767,93767,1,5658,1},
{93768,93768,1,5659,1},
{93769,93769,1,5660,1},
{93770,93770,1,5661,1},
{93771,93771,1,5662,1},
{93772,93772,1,5663,1},
{93773,93773,1,5664,1},
{93774,93774,1,5665,1},
{93775,93775,1,5666,1},
{93776,93776,1,5667,1},
{93777,93777,1,5668,1},
{93778,93778,1,5669,1},
{93779,93779,1,5670,1},
{93780,93780,1,5671,1},
{93781,93781,1,5672,1},
{93782,93782,1,5673,1},
{93783,93783,1,5674,1},
{93784,93784,1,5675,1},
{93785,93785,1,5676,1},
{93786,93786,1,5677,1},
{93787,93787,1,5678,1},
{93788,93788,1,5679,1},
{93789,93789,1,5680,1},
{93790,93790,1,5681,1},
{93791,93791,1,5682,1},
{93792,93823,0,5683,0},
{93824,93850,0,5683,0},
{93851,93951,4,5683,0},
{93952,94020,0,5683,0},
{94021,94026,0,5683,0},
{94027,94030,4,5683,0},
{94031,94031,0,5683,0},
{94032,94078,0,5683,0},
{94079,94087,0,5683,0},
{94088,94094,4,5683,0},
{94095,94111,0,5683,0},
{94112,94175,4,5683,0},
{94176,94176,0,5683,0},
{94177,94177,0,5683,0},
{94178,94178,0,5683,0},
{94179,94179,0,5683,0},
{94180,94180,0,5683,0},
{94181,94191,4,5683,0},
{94192,94193,0,5683,0},
{94194,94207,4,5683,0},
{94208,100332,0,5683,0},
{100333,100337,0,5683,0},
{100338,100343,0,5683,0},
{100344,100351,4,5683,0},
{100352,101106,0,5683,0},
{101107,101589,0,5683,0},
{101590,101631,4,5683,0},
{101632,101640,0,5683,0},
{101641,110591,4,5683,0},
{110592,110593,0,5683,0},
{110594,110878,0,5683,0},
{110879,110927,4,5683,0},
{110928,110930,0,5683,0},
{110931,110947,4,5683,0},
{110948,110951,0,5683,0},
{110952,110959,4,5683,0},
{110960,111355,0,5683,0},
{111356,113663,4,5683,0},
{113664,113770,0,5683,0},
{113771,113775,4,5683,0},
{113776,113788,0,5683,0},
{113789,113791,4,5683,0},
{113792,113800,0,5683,0},
{113801,113807,4,5683,0},
{113808,113817,0,5683,0},
{113818,113819,4,5683,0},
{113820,113820,0,5683,0},
{113821,113822,0,5683,0},
{113823,113823,0,5683,0},
{113824,113827,2,5683,0},
{113828,118783,4,5683,0},
{118784,119029,0,5683,0},
{119030,119039,4,5683,0},
{119040,119078,0,5683,0},
{119079,119080,4,5683,0},
{119081,119081,0,5683,0},
{119082,119133,0,5683,0},
{119134,119134,1,5683,2},
{119135,119135,1,5685,2},
{119136,119136,1,5687,3},
{119137,119137,1,5690,3},
{119138,119138,1,5693,3},
{119139,119139,1,5696,3},
{119140,119140,1,5699,3},
{119141,119154,0,5702,0},
{119155,119162,4,5702,0},
{119163,119226,0,5702,0},
{119227,119227,1,5702,2},
{119228,119228,1,5704,2},
{119229,119229,1,5706,3},
{119230,119230,1,5709,3},
{119231,119231,1,5712,3},
{119232,119232,1,5715,3},
{119233,119261,0,5718,0},
{119262,119272,0,5718,0},
{119273,119295,4,5718,0},
{119296,119365,0,5718,0},
{119366,119519,4,5718,0},
{119520,119539,0,5718,0},
{119540,119551,4,5718,0},
{119552,119638,0,5718,0},
{119639,119647,4,5718,0},
{119648,119665,0,5718,0},
{119666,119672,0,5718,0},
{119673,119807,4,5718,0},
{119808,119808,1,5718,1},
{119809,119809,1,5719,1},
{119810,119810,1,5720,1},
{119811,119811,1,5721,1},
{119812,119812,1,5722,1},
{119813,119813,1,5723,1},
{119814,119814,1,5724,1},
{119815,119815,1,5725,1},
{119816,119816,1,5726,1},
{119817,119817,1,5727,1},
{119818,119818,1,5728,1},
{119819,119819,1,5729,1},
{119820,119820,1,5730,1},
{119821,119821,1,5731,1},
{119822,119822,1,5732,1},
{119823,119823,1,5733,1},
{119824,119824,1,5734,1},
{119825,119825,1,5735,1},
{119826,119826,1,5736,1},
{119827,119827,1,5737,1},
{119828,119828,1,5738,1},
{119829,119829,1,5739,1},
{119830,119830,1,5740,1},
{119831,119831,1,5741,1},
{119832,119832,1,5742,1},
{119833,119833,1,5743,1},
{119834,119834,1,5744,1},
{119835,119835,1,5745,1},
{119836,119836,1,5746,1},
{119837,119837,1,5747,1},
{119838,119838,1,5748,1},
{119839,119839,1,5749,1},
{119840,119840,1,5750,1},
{119841,119841,1,5751,1},
{119842,119842,1,5752,1},
{119843,119843,1,5753,1},
{119844,119844,1,5754,1},
{119845,119845,1,5755,1},
{119846,119846,1,5756,1},
{119847,119847,1,5757,1},
{119848,119848,1,5758,1},
{119849,119849,1,5759,1},
{119850,119850,1,5760,1},
{119851,119851,1,5761,1},
{119852,119852,1,5762,1},
{119853,119853,1,5763,1},
{119854,119854,1,5764,1},
{119855,119855,1,5765,1},
{119856,119856,1,5766,1},
{119857,119857,1,5767,1},
{119858,119858,1,5768,1},
{119859,119859,1,5769,1},
{119860,119860,1,5770,1},
{119861,119861,1,5771,1},
{119862,119862,1,5772,1},
{119863,119863,1,5773,1},
{119864,119864,1,5774,1},
{119865,119865,1,5775,1},
{119866,119866,1,5776,1},
{119867,119867,1,5777,1},
{119868,119868,1,5778,1},
{119869,119869,1,5779,1},
{119870,119870,1,5780,1},
{119871,119871,1,5781,1},
{119872,119872,1,5782,1},
{119873,119873,1,5783,1},
{119874,119874,1,5784,1},
{119875,119875,1,5785,1},
{119876,119876,1,5786,1},
{119877,119877,1,5787,1},
{119878,119878,1,5788,1},
{119879,119879,1,5789,1},
{119880,119880,1,5790,1},
{119881,119881,1,5791,1},
{119882,119882,1,5792,1},
{119883,119883,1,5793,1},
{119884,119884,1,5794,1},
{119885,119885,1,5795,1},
{119886,119886,1,5796,1},
{119887,119887,1,5797,1},
{119888,119888,1,5798,1},
{119889,119889,1,5799,1},
{119890,119890,1,5800,1},
{119891,119891,1,5801,1},
{119892,119892,1,5802,1},
{119893,119893,4,5803,0},
{119894,119894,1,5803,1},
{119895,119895,1,5804,1},
{119896,119896,1,5805,1},
{119897,119897,1,5806,1},
{119898,119898,1,5807,1},
{119899,119899,1,5808,1},
{119900,119900,1,5809,1},
{119901,119901,1,5810,1},
{119902,119902,1,5811,1},
{119903,119903,1,5812,1},
{119904,119904,1,5813,1},
{119905,119905,1,5814,1},
{119906,119906,1,5815,1},
{119907,119907,1,5816,1},
{119908,119908,1,5817,1},
{119909,119909,1,5818,1},
{119910,119910,1,5819,1},
{119911,119911,1,5820,1},
{119912,119912,1,5821,1},
{119913,119913,1,5822,1},
{119914,119914,1,5823,1},
{119915,119915,1,5824,1},
{119916,119916,1,5825,1},
{119917,119917,1,5826,1},
{119918,119918,1,5827,1},
{119919,119919,1,5828,1},
{119920,119920,1,5829,1},
{119921,119921,1,5830,1},
{119922,119922,1,5831,1},
{119923,119923,1,5832,1},
{119924,119924,1,5833,1},
{119925,119925,1,5834,1},
{119926,119926,1,5835,1},
{119927,119927,1,5836,1},
{119928,119928,1,5837,1},
{119929,119929,1,5838,1},
{119930,119930,1,5839,1},
{119931,119931,1,5840,1},
{119932,119932,1,5841,1},
{119933,119933,1,5842,1},
{119934,119934,1,5843,1},
{119935,119935,1,5844,1},
{119936,119936,1,5845,1},
{119937,119937,1,5846,1},
{119938,119938,1,5847,1},
{119939,119939,1,5848,1},
{119940,119940,1,5849,1},
{119941,119941,1,5850,1},
{119942,119942,1,5851,1},
{119943,119943,1,5852,1},
{119944,119944,1,5853,1},
{119945,119945,1,5854,1},
{119946,119946,1,5855,1},
{119947,119947,1,5856,1},
{119948,119948,1,5857,1},
{119949,119949,1,5858,1},
{119950,119950,1,5859,1},
{119951,119951,1,5860,1},
{119952,119952,1,5861,1},
{119953,119953,1,5862,1},
{119954,119954,1,5863,1},
{119955,119955,1,5864,1},
{119956,119956,1,5865,1},
{119957,119957,1,5866,1},
{119958,119958,1,5867,1},
{119959,119959,1,5868,1},
{119960,119960,1,5869,1},
{119961,119961,1,5870,1},
{119962,119962,1,5871,1},
{119963,119963,1,5872,1},
{119964,119964,1,5873,1},
{119965,119965,4,5874,0},
{119966,119966,1,5874,1},
{119967,119967,1,5875,1},
{119968,119969,4,5876,0},
{119970,119970,1,5876,1},
{119971,119972,4,5877,0},
{119973,119973,1,5877,1},
{119974,119974,1,5878,1},
{119975,119976,4,5879,0},
{119977,119977,1,5879,1},
{119978,119978,1,5880,1},
{119979,119979,1,5881,1},
{119980,119980,1,5882,1},
{119981,119981,4,5883,0},
{119982,119982,1,5883,1},
{119983,119983,1,5884,1},
{119984,119984,1,5885,1},
{119985,119985,1,5886,1},
{119986,119986,1,5887,1},
{119987,119987,1,5888,1},
{119988,119988,1,5889,1},
{119989,119989,1,5890,1},
{119990,119990,1,5891,1},
{119991,119991,1,5892,1},
{119992,119992,1,5893,1},
{119993,119993,1,5894,1},
{119994,119994,4,5895,0},
{119995,119995,1,5895,1},
{119996,119996,4,5896,0},
{119997,119997,1,5896,1},
{119998,119998,1,5897,1},
{119999,119999,1,5898,1},
{120000,120000,1,5899,1},
{120001,120001,1,5900,1},
{120002,120002,1,5901,1},
{120003,120003,1,5902,1},
{120004,120004,4,5903,0},
{120005,120005,1,5903,1},
{120006,120006,1,5904,1},
{120007,120007,1,5905,1},
{120008,120008,1,5906,1},
{120009,120009,1,5907,1},
{120010,120010,1,5908,1},
{120011,120011,1,5909,1},
{120012,120012,1,5910,1},
{120013,120013,1,5911,1},
{120014,120014,1,5912,1},
{120015,120015,1,5913,1},
{120016,120016,1,5914,1},
{120017,120017,1,5915,1},
{120018,120018,1,5916,1},
{120019,120019,1,5917,1},
{120020,120020,1,5918,1},
{120021,120021,1,5919,1},
{120022,120022,1,5920,1},
{120023,120023,1,5921,1},
{120024,120024,1,5922,1},
{120025,120025,1,5923,1},
{120026,120026,1,5924,1},
{120027,120027,1,5925,1},
{120028,120028,1,5926,1},
{120029,120029,1,5927,1},
{120030,120030,1,5928,1},
{120031,120031,1,5929,1},
{120032,120032,1,5930,1},
{120033,120033,1,5931,1},
{120034,120034,1,5932,1},
{120035,120035,1,5933,1},
{120036,120036,1,5934,1},
{120037,120037,1,5935,1},
{120038,120038,1,5936,1},
{120039,120039,1,5937,1},
{120040,120040,1,5938,1},
{120041,120041,1,5939,1},
{120042,120042,1,5940,1},
{120043,120043,1,5941,1},
{120044,120044,1,5942,1},
{120045,120045,1,5943,1},
{120046,120046,1,5944,1},
{120047,120047,1,5945,1},
{120048,120048,1,5946,1},
{120049,120049,1,5947,1},
{120050,120050,1,5948,1},
{120051,120051,1,5949,1},
{120052,120052,1,5950,1},
{120053,120053,1,5951,1},
{120054,120054,1,5952,1},
{120055,120055,1,5953,1},
{120056,120056,1,5954,1},
{120057,120057,1,5955,1},
{120058,120058,1,5956,1},
{120059,120059,1,5957,1},
{120060,120060,1,5958,1},
{120061,120061,1,5959,1},
{120062,120062,1,5960,1},
{120063,120063,1,5961,1},
{120064,120064,1,5962,1},
{120065,120065,1,5963,1},
{120066,120066,1,5964,1},
{120067,120067,1,5965,1},
{120068,120068,1,5966,1},
{120069,120069,1,5967,1},
{120070,120070,4,5968,0},
{120071,120071,1,5968,1},
{120072,120072,1,5969,1},
{120073,120073,1,5970,1},
{120074,120074,1,5971,1},
{120075,120076,4,5972,0},
{120077,120077,1,5972,1},
{120078,120078,1,5973,1},
{120079,120079,1,5974,1},
{120080,120080,1,5975,1},
{120081,120081,1,5976,1},
{120082,120082,1,5977,1},
{120083,120083,1,5978,1},
{120084,120084,1,5979,1},
{120085,120085,4,5980,0},
{120086,120086,1,5980,1},
{120087,120087,1,5981,1},
{120088,120088,1,5982,1},
{120089,120089,1,5983,1},
{120090,120090,1,5984,1},
{120091,120091,1,5985,1},
{120092,120092,1,5986,1},
{120093,120093,4,5987,0},
{120094,120094,1,5987,1},
{120095,120095,1,5988,1},
{120096,120096,1,5989,1},
{120097,120097,1,5990,1},
{120098,120098,1,5991,1},
{120099,120099,1,5992,1},
{120100,120100,1,5993,1},
{120101,120101,1,5994,1},
{120102,120102,1,5995,1},
{120103,120103,1,5996,1},
{120104,120104,1,5997,1},
{120105,120105,1,5998,1},
{120106,120106,1,5999,1},
{120107,120107,1,6000,1},
{120108,120108,1,6001,1},
{120109,120109,1,6002,1},
{120110,120110,1,6003,1},
{120111,120111,1,6004,1},
{120112,120112,1,6005,1},
{120113,120113,1,6006,1},
{120114,120114,1,6007,1},
{120115,120115,1,6008,1},
{120116,120116,1,6009,1},
{120117,120117,1,6010,1},
{120118,120118,1,6011,1},
{120119,120119,1,6012,1},
{120120,120120,1,6013,1},
{120121,120121,1,6014,1},
{120122,120122,4,6015,0},
{120123,120123,1,6015,1},
{120124,120124,1,6016,1},
{120125,120125,1,6017,1},
{120126,120126,1,6018,1},
{120127,120127,4,6019,0},
{120128,120128,1,6019,1},
{120129,120129,1,6020,1},
{120130,120130,1,6021,1},
{120131,120131,1,6022,1},
{120132,120132,1,6023,1},
{120133,120133,4,6024,0},
{120134,120134,1,6024,1},
{120135,120137,4,6025,0},
{120138,120138,1,6025,1},
{120139,120139,1,6026,1},
{120140,120140,1,6027,1},
{120141,120141,1,6028,1},
{120142,120142,1,6029,1},
{120143,120143,1,6030,1},
{120144,120144,1,6031,1},
{120145,120145,4,6032,0},
{120146,120146,1,6032,1},
{120147,120147,1,6033,1},
{120148,120148,1,6034,1},
{120149,120149,1,6035,1},
{120150,120150,1,6036,1},
{120151,120151,1,6037,1},
{120152,120152,1,6038,1},
{120153,120153,1,6039,1},
{120154,120154,1,6040,1},
{120155,120155,1,6041,1},
{120156,120156,1,6042,1},
{120157,120157,1,6043,1},
{120158,120158,1,6044,1},
{120159,120159,1,6045,1},
{120160,120160,1,6046,1},
{120161,120161,1,6047,1},
{120162,120162,1,6048,1},
{120163,120163,1,6049,1},
{120164,120164,1,6050,1},
{120165,120165,1,6051,1},
{120166,120166,1,6052,1},
{120167,120167,1,6053,1},
{120168,120168,1,6054,1},
{120169,120169,1,6055,1},
{120170,120170,1,6056,1},
{120171,120171,1,6057,1},
{120172,120172,1,6058,1},
{120173,120173,1,6059,1},
{120174,120174,1,6060,1},
{120175,120175,1,6061,1},
{120176,120176,1,6062,1},
{120177,120177,1,6063,1},
{120178,120178,1,6064,1},
{120179,120179,1,6065,1},
{120180,120180,1,6066,1},
{120181,120181,1,6067,1},
{120182,120182,1,6068,1},
{120183,120183,1,6069,1},
{120184,120184,1,6070,1},
{120185,120185,1,6071,1},
{120186,120186,1,6072,1},
{120187,120187,1,6073,1},
{120188,120188,1,6074,1},
{120189,120189,1,6075,1},
{120190,120190,1,6076,1},
{120191,120191,1,6077,1},
{120192,120192,1,6078,1},
{120193,120193,1,6079,1},
{120194,120194,1,6080,1},
{120195,120195,1,6081,1},
{120196,120196,1,6082,1},
{120197,120197,1,6083,1},
{120198,120198,1,6084,1},
{120199,120199,1,6085,1},
{120200,120200,1,6086,1},
{120201,120201,1,6087,1},
{120202,120202,1,6088,1},
{120203,120203,1,6089,1},
{120204,120204,1,6090,1},
{120205,120205,1,6091,1},
{120206,120206,1,6092,1},
{120207,120207,1,6093,1},
{120208,120208,1,6094,1},
{120209,120209,1,6095,1},
{120210,120210,1,6096,1},
{120211,120211,1,6097,1},
{120212,120212,1,6098,1},
{120213,120213,1,6099,1},
{120214,120214,1,6100,1},
{120215,120215,1,6101,1},
{120216,120216,1,6102,1},
{120217,120217,1,6103,1},
{120218,120218,1,6104,1},
{120219,120219,1,6105,1},
{120220,120220,1,6106,1},
{120221,120221,1,6107,1},
{120222,120222,1,6108,1},
{120223,120223,1,6109,1},
{120224,120224,1,6110,1},
{120225,120225,1,6111,1},
{120226,120226,1,6112,1},
{120227,120227,1,6113,1},
{120228,120228,1,6114,1},
{120229,120229,1,6115,1},
{120230,120230,1,6116,1},
{120231,120231,1,6117,1},
{120232,120232,1,6118,1},
{120233,120233,1,6119,1},
{120234,120234,1,6120,1},
{120235,120235,1,6121,1},
{120236,120236,1,6122,1},
{120237,120237,1,6123,1},
{120238,120238,1,6124,1},
{120239,120239,1,6125,1},
{120240,120240,1,6126,1},
{120241,120241,1,6127,1},
{120242,120242,1,6128,1},
{120243,120243,1,6129,1},
{120244,120244,1,6130,1},
{120245,120245,1,6131,1},
{120246,120246,1,6132,1},
{120247,120247,1,6133,1},
{120248,120248,1,6134,1},
{120249,120249,1,6135,1},
{120250,120250,1,6136,1},
{120251,120251,1,6137,1},
{120252,120252,1,6138,1},
{120253,120253,1,6139,1},
{120254,120254,1,6140,1},
{120255,120255,1,6141,1},
{120256,120256,1,6142,1},
{120257,120257,1,6143,1},
{120258,120258,1,6144,1},
{120259,120259,1,6145,1},
{120260,120260,1,6146,1},
{120261,120261,1,6147,1},
{120262,120262,1,6148,1},
{120263,120263,1,6149,1},
{120264,120264,1,6150,1},
{120265,120265,1,6151,1},
{120266,120266,1,6152,1},
{120267,120267,1,6153,1},
{120268,120268,1,6154,1},
{120269,120269,1,6155,1},
{120270,120270,1,6156,1},
{120271,120271,1,6157,1},
{120272,120272,1,6158,1},
{120273,120273,1,6159,1},
{120274,120274,1,6160,1},
{120275,120275,1,6161,1},
{120276,120276,1,6162,1},
{120277,120277,1,6163,1},
{120278,120278,1,6164,1},
{120279,120279,1,6165,1},
{120280,120280,1,6166,1},
{120281,120281,1,6167,1},
{120282,120282,1,6168,1},
{120283,120283,1,6169,1},
{120284,120284,1,6170,1},
{120285,120285,1,6171,1},
{120286,120286,1,6172,1},
{120287,120287,1,6173,1},
{120288,120288,1,6174,1},
{120289,120289,1,6175,1},
{120290,120290,1,6176,1},
{120291,120291,1,6177,1},
{120292,120292,1,6178,1},
{120293,120293,1,6179,1},
{120294,120294,1,6180,1},
{120295,120295,1,6181,1},
{120296,120296,1,6182,1},
{120297,120297,1,6183,1},
{120298,120298,1,6184,1},
{120299,120299,1,6185,1},
{120300,120300,1,6186,1},
{120301,120301,1,6187,1},
{120302,120302,1,6188,1},
{120303,120303,1,6189,1},
{120304,120304,1,6190,1},
{120305,120305,1,6191,1},
{120306,120306,1,6192,1},
{120307,120307,1,6193,1},
{120308,120308,1,6194,1},
{120309,120309,1,6195,1},
{120310,120310,1,6196,1},
{120311,120311,1,6197,1},
{120312,120312,1,6198,1},
{120313,120313,1,6199,1},
{120314,120314,1,6200,1},
{120315,120315,1,6201,1},
{120316,120316,1,6202,1},
{120317,120317,1,6203,1},
{120318,120318,1,6204,1},
{120319,120319,1,6205,1},
{120320,120320,1,6206,1},
{120321,120321,1,6207,1},
{120322,120322,1,6208,1},
{120323,120323,1,6209,1},
{120324,120324,1,6210,1},
{120325,120325,1,6211,1},
{120326,120326,1,6212,1},
{120327,120327,1,6213,1},
{120328,120328,1,6214,1},
{120329,120329,1,6215,1},
{120330,120330,1,6216,1},
{120331,120331,1,6217,1},
{120332,120332,1,6218,1},
{120333,120333,1,6219,1},
{120334,120334,1,6220,1},
{120335,120335,1,6221,1},
{120336,120336,1,6222,1},
{120337,120337,1,6223,1},
{120338,120338,1,6224,1},
{120339,120339,1,6225,1},
{120340,120340,1,6226,1},
{120341,120341,1,6227,1},
{120342,120342,1,6228,1},
{120343,120343,1,6229,1},
{120344,120344,1,6230,1},
{120345,120345,1,6231,1},
{120346,120346,1,6232,1},
{120347,120347,1,6233,1},
{120348,120348,1,6234,1},
{120349,120349,1,6235,1},
{120350,120350,1,6236,1},
{120351,120351,1,6237,1},
{120352,120352,1,6238,1},
{120353,120353,1,6239,1},
{120354,120354,1,6240,1},
{120355,120355,1,6241,1},
{120356,120356,1,6242,1},
{120357,120357,1,6243,1},
{120358,120358,1,6244,1},
{120359,120359,1,6245,1},
{120360,120360,1,6246,1},
{120361,120361,1,6247,1},
{120362,120362,1,6248,1},
{120363,120363,1,6249,1},
{120364,120364,1,6250,1},
{120365,120365,1,6251,1},
{120366,120366,1,6252,1},
{120367,120367,1,6253,1},
{120368,120368,1,6254,1},
{120369,120369,1,6255,1},
{120370,120370,1,6256,1},
{120371,120371,1,6257,1},
{120372,120372,1,6258,1},
{120373,120373,1,6259,1},
{120374,120374,1,6260,1},
{120375,120375,1,6261,1},
{120376,120376,1,6262,1},
{120377,120377,1,6263,1},
{120378,120378,1,6264,1},
{120379,120379,1,6265,1},
{120380,120380,1,6266,1},
{120381,120381,1,6267,1},
{120382,120382,1,6268,1},
{120383,120383,1,6269,1},
{120384,120384,1,6270,1},
{120385,120385,1,6271,1},
{120386,120386,1,6272,1},
{120387,120387,1,6273,1},
{120388,120388,1,6274,1},
{120389,120389,1,6275,1},
{120390,120390,1,6276,1},
{120391,120391,1,6277,1},
{120392,120392,1,6278,1},
{120393,120393,1,6279,1},
{120394,120394,1,6280,1},
{120395,120395,1,6281,1},
{120396,120396,1,6282,1},
{120397,120397,1,6283,1},
{120398,120398,1,6284,1},
{120399,120399,1,6285,1},
{120400,120400,1,6286,1},
{120401,120401,1,6287,1},
{120402,120402,1,6288,1},
{120403,120403,1,6289,1},
{120404,120404,1,6290,1},
{120405,120405,1,6291,1},
{120406,120406,1,6292,1},
{120407,120407,1,6293,1},
{120408,120408,1,6294,1},
{120409,120409,1,6295,1},
{120410,120410,1,6296,1},
{120411,120411,1,6297,1},
{120412,120412,1,6298,1},
{120413,120413,1,6299,1},
{120414,120414,1,6300,1},
{120415,120415,1,6301,1},
{120416,120416,1,6302,1},
{120417,120417,1,6303,1},
{120418,120418,1,6304,1},
{120419,120419,1,6305,1},
{120420,120420,1,6306,1},
{120421,120421,1,6307,1},
{120422,120422,1,6308,1},
{120423,120423,1,6309,1},
{120424,120424,1,6310,1},
{120425,120425,1,6311,1},
{120426,120426,1,6312,1},
{120427,120427,1,6313,1},
{120428,120428,1,6314,1},
{120429,120429,1,6315,1},
{120430,120430,1,6316,1},
{120431,120431,1,6317,1},
{120432,120432,1,6318,1},
{120433,120433,1,6319,1},
{120434,120434,1,6320,1},
{120435,120435,1,6321,1},
{120436,120436,1,6322,1},
{120437,120437,1,6323,1},
{120438,120438,1,6324,1},
{120439,120439,1,6325,1},
{120440,120440,1,6326,1},
{120441,120441,1,6327,1},
{120442,120442,1,6328,1},
{120443,120443,1,6329,1},
{120444,120444,1,6330,1},
{120445,120445,1,6331,1},
{120446,120446,1,6332,1},
{120447,120447,1,6333,1},
{120448,120448,1,6334,1},
{120449,120449,1,6335,1},
{120450,120450,1,6336,1},
{120451,120451,1,6337,1},
{120452,120452,1,6338,1},
{120453,120453,1,6339,1},
{120454,120454,1,6340,1},
{120455,120455,1,6341,1},
{120456,120456,1,6342,1},
{120457,120457,1,6343,1},
{120458,120458,1,6344,1},
{120459,120459,1,6345,1},
{120460,120460,1,6346,1},
{120461,120461,1,6347,1},
{120462,120462,1,6348,1},
{120463,120463,1,6349,1},
{120464,120464,1,6350,1},
{120465,120465,1,6351,1},
{120466,120466,1,6352,1},
{120467,120467,1,6353,1},
{120468,120468,1,6354,1},
{120469,120469,1,6355,1},
{120470,120470,1,6356,1},
{120471,120471,1,6357,1},
{120472,120472,1,6358,1},
{120473,120473,1,6359,1},
{120474,120474,1,6360,1},
{120475,120475,1,6361,1},
{120476,120476,1,6362,1},
{120477,120477,1,6363,1},
{120478,120478,1,6364,1},
{120479,120479,1,6365,1},
{120480,120480,1,6366,1},
{120481,120481,1,6367,1},
{120482,120482,1,6368,1},
{120483,120483,1,6369,1},
{120484,120484,1,6370,1},
{120485,120485,1,6371,1},
{120486,120487,4,6372,0},
{120488,120488,1,6372,1},
{120489,120489,1,6373,1},
{120490,120490,1,6374,1},
{120491,120491,1,6375,1},
{120492,120492,1,6376,1},
{120493,120493,1,6377,1},
{120494,120494,1,6378,1},
{120495,120495,1,6379,1},
{120496,120496,1,6380,1},
{120497,120497,1,6381,1},
{120498,120498,1,6382,1},
{120499,120499,1,6383,1},
{120500,120500,1,6384,1},
{120501,120501,1,6385,1},
{120502,120502,1,6386,1},
{120503,120503,1,6387,1},
{120504,120504,1,6388,1},
{120505,120505,1,6389,1},
{120506,120506,1,6390,1},
{120507,120507,1,6391,1},
{120508,120508,1,6392,1},
{120509,120509,1,6393,1},
{120510,120510,1,6394,1},
{120511,120511,1,6395,1},
{120512,120512,1,6396,1},
{120513,120513,1,6397,1},
{120514,120514,1,6398,1},
{120515,120515,1,6399,1},
{120516,120516,1,6400,1},
{120517,120517,1,6401,1},
{120518,120518,1,6402,1},
{120519,120519,1,6403,1},
{120520,120520,1,6404,1},
{120521,120521,1,6405,1},
{120522,120522,1,6406,1},
{120523,120523,1,6407,1},
{120524,120524,1,6408,1},
{120525,120525,1,6409,1},
{120526,120526,1,6410,1},
{120527,120527,1,6411,1},
{120528,120528,1,6412,1},
{120529,120529,1,6413,1},
{120530,120530,1,6414,1},
{120531,120532,1,6415,1},
{120533,120533,1,6416,1},
{120534,120534,1,6417,1},
{120535,120535,1,6418,1},
{120536,120536,1,6419,1},
{120537,120537,1,6420,1},
{120538,120538,1,6421,1},
{120539,120539,1,6422,1},
{120540,120540,1,6423,1},
{120541,120541,1,6424,1},
{120542,120542,1,6425,1},
{120543,120543,1,6426,1},
{120544,120544,1,6427,1},
{120545,120545,1,6428,1},
{120546,120546,1,6429,1},
{120547,120547,1,6430,1},
{120548,120548,1,6431,1},
{120549,120549,1,6432,1},
{120550,120550,1,6433,1},
{120551,120551,1,6434,1},
{120552,120552,1,6435,1},
{120553,120553,1,6436,1},
{120554,120554,1,6437,1},
{120555,120555,1,6438,1},
{120556,120556,1,6439,1},
{120557,120557,1,6440,1},
{120558,120558,1,6441,1},
{120559,120559,1,6442,1},
{120560,120560,1,6443,1},
{120561,120561,1,6444,1},
{120562,120562,1,6445,1},
{120563,120563,1,6446,1},
{120564,120564,1,6447,1},
{120565,120565,1,6448,1},
{120566,120566,1,6449,1},
{120567,120567,1,6450,1},
{120568,120568,1,6451,1},
{120569,120569,1,6452,1},
{120570,120570,1,6453,1},
{120571,120571,1,6454,1},
{120572,120572,1,6455,1},
{120573,120573,1,6456,1},
{120574,120574,1,6457,1},
{120575,120575,1,6458,1},
{120576,120576,1,6459,1},
{120577,120577,1,6460,1},
{120578,120578,1,6461,1},
{120579,120579,1,6462,1},
{120580,120580,1,6463,1},
{120581,120581,1,6464,1},
{120582,120582,1,6465,1},
{120583,120583,1,6466,1},
{120584,120584,1,6467,1},
{120585,120585,1,6468,1},
{120586,120586,1,6469,1},
{120587,120587,1,6470,1},
{120588,120588,1,6471,1},
{120589,120590,1,6472,1},
{120591,120591,1,6473,1},
{120592,120592,1,6474,1},
{120593,120593,1,6475,1},
{120594,120594,1,6476,1},
{120595,120595,1,6477,1},
{120596,120596,1,6478,1},
{120597,120597,1,6479,1},
{120598,120598,1,6480,1},
{120599,120599,1,6481,1},
{120600,120600,1,6482,1},
{120601,120601,1,6483,1},
{120602,120602,1,6484,1},
{120603,120603,1,6485,1},
{120604,120604,1,6486,1},
{120605,120605,1,6487,1},
{120606,120606,1,6488,1},
{120607,120607,1,6489,1},
{120608,120608,1,6490,1},
{120609,120609,1,6491,1},
{120610,120610,1,6492,1},
{120611,120611,1,6493,1},
{120612,120612,1,6494,1},
{120613,120613,1,6495,1},
{120614,120614,1,6496,1},
{120615,120615,1,6497,1},
{120616,120616,1,6498,1},
{120617,120617,1,6499,1},
{120618,120618,1,6500,1},
{120619,120619,1,6501,1},
{120620,120620,1,6502,1},
{120621,120621,1,6503,1},
{120622,120622,1,6504,1},
{120623,120623,1,6505,1},
{120624,120624,1,6506,1},
{120625,120625,1,6507,1},
{120626,120626,1,6508,1},
{120627,120627,1,6509,1},
{120628,120628,1,6510,1},
{120629,120629,1,6511,1},
{120630,120630,1,6512,1},
{120631,120631,1,6513,1},
{120632,120632,1,6514,1},
{120633,120633,1,6515,1},
{120634,120634,1,6516,1},
{120635,120635,1,6517,1},
{120636,120636,1,6518,1},
{120637,120637,1,6519,1},
{120638,120638,1,6520,1},
{120639,120639,1,6521,1},
{120640,120640,1,6522,1},
{120641,120641,1,6523,1},
{120642,120642,1,6524,1},
{120643,120643,1,6525,1},
{120644,120644,1,6526,1},
{120645,120645,1,6527,1},
{120646,120646,1,6528,1},
{120647,120648,1,6529,1},
{120649,120649,1,6530,1},
{120650,120650,1,6531,1},
{120651,120651,1,6532,1},
{120652,120652,1,6533,1},
{120653,120653,1,6534,1},
{120654,120654,1,6535,1},
{120655,120655,1,6536,1},
{120656,120656,1,6537,1},
{120657,120657,1,6538,1},
{120658,120658,1,6539,1},
{120659,120659,1,6540,1},
{120660,120660,1,6541,1},
{120661,120661,1,6542,1},
{120662,120662,1,6543,1},
{120663,120663,1,6544,1},
{120664,120664,1,6545,1},
{120665,120665,1,6546,1},
{120666,120666,1,6547,1},
{120667,120667,1,6548,1},
{120668,120668,1,6549,1},
{120669,120669,1,6550,1},
{120670,120670,1,6551,1},
{120671,120671,1,6552,1},
{120672,120672,1,6553,1},
{120673,120673,1,6554,1},
{120674,120674,1,6555,1},
{120675,120675,1,6556,1},
{120676,120676,1,6557,1},
{120677,120677,1,6558,1},
{120678,120678,1,6559,1},
{120679,120679,1,6560,1},
{120680,120680,1,6561,1},
{120681,120681,1,6562,1},
{120682,120682,1,6563,1},
{120683,120683,1,6564,1},
{120684,120684,1,6565,1},
{120685,120685,1,6566,1},
{120686,120686,1,6567,1},
{120687,120687,1,6568,1},
{120688,120688,1,6569,1},
{120689,120689,1,6570,1},
{120690,120690,1,6571,1},
{120691,120691,1,6572,1},
{120692,120692,1,6573,1},
{120693,120693,1,6574,1},
{120694,120694,1,6575,1},
{120695,120695,1,6576,1},
{120696,120696,1,6577,1},
{120697,120697,1,6578,1},
{120698,120698,1,6579,1},
{120699,120699,1,6580,1},
{120700,120700,1,6581,1},
{120701,120701,1,6582,1},
{120702,120702,1,6583,1},
{120703,120703,1,6584,1},
{120704,120704,1,6585,1},
{120705,120706,1,6586,1},
{120707,120707,1,6587,1},
{120708,120708,1,6588,1},
{120709,120709,1,6589,1},
{120710,120710,1,6590,1},
{120711,120711,1,6591,1},
{120712,120712,1,6592,1},
{120713,120713,1,6593,1},
{120714,120714,1,6594,1},
{120715,120715,1,6595,1},
{120716,120716,1,6596,1},
{120717,120717,1,6597,1},
{120718,120718,1,6598,1},
{120719,120719,1,6599,1},
{120720,120720,1,6600,1},
{120721,120721,1,6601,1},
{120722,120722,1,6602,1},
{120723,120723,1,6603,1},
{120724,120724,1,6604,1},
{120725,120725,1,6605,1},
{120726,120726,1,6606,1},
{120727,120727,1,6607,1},
{120728,120728,1,6608,1},
{120729,120729,1,6609,1},
{120730,120730,1,6610,1},
{120731,120731,1,6611,1},
{120732,120732,1,6612,1},
{120733,120733,1,6613,1},
{120734,120734,1,6614,1},
{120735,120735,1,6615,1},
{120736,120736,1,6616,1},
{120737,120737,1,6617,1},
{120738,120738,1,6618,1},
{120739,120739,1,6619,1},
{120740,120740,1,6620,1},
{120741,120741,1,6621,1},
{120742,120742,1,6622,1},
{120743,120743,1,6623,1},
{120744,120744,1,6624,1},
{120745,120745,1,6625,1},
{120746,120746,1,6626,1},
{120747,120747,1,6627,1},
{120748,120748,1,6628,1},
{120749,120749,1,6629,1},
{120750,120750,1,6630,1},
{120751,120751,1,6631,1},
{120752,120752,1,6632,1},
{120753,120753,1,6633,1},
{120754,120754,1,6634,1},
{120755,120755,1,6635,1},
{120756,120756,1,6636,1},
{120757,120757,1,6637,1},
{120758,120758,1,6638,1},
{120759,120759,1,6639,1},
{120760,120760,1,6640,1},
{120761,120761,1,6641,1},
{120762,120762,1,6642,1},
{120763,120764,1,6643,1},
{120765,120765,1,6644,1},
{120766,120766,1,6645,1},
{120767,120767,1,6646,1},
{120768,120768,1,6647,1},
{120769,120769,1,6648,1},
{120770,120770,1,6649,1},
{120771,120771,1,6650,1},
{120772,120772,1,6651,1},
{120773,120773,1,6652,1},
{120774,120774,1,6653,1},
{120775,120775,1,6654,1},
{120776,120776,1,6655,1},
{120777,120777,1,6656,1},
{120778,120779,1,6657,1},
{120780,120781,4,6658,0},
{120782,120782,1,6658,1},
{120783,120783,1,6659,1},
{120784,120784,1,6660,1},
{120785,120785,1,6661,1},
{120786,120786,1,6662,1},
{120787,120787,1,6663,1},
{120788,120788,1,6664,1},
{120789,120789,1,6665,1},
{120790,120790,1,6666,1},
{120791,120791,1,6667,1},
{120792,120792,1,6668,1},
{120793,120793,1,6669,1},
{120794,120794,1,6670,1},
{120795,120795,1,6671,1},
{120796,120796,1,6672,1},
{120797,120797,1,6673,1},
{120798,120798,1,6674,1},
{120799,120799,1,6675,1},
{120800,120800,1,6676,1},
{120801,120801,1,6677,1},
{120802,120802,1,6678,1},
{120803,120803,1,6679,1},
{120804,120804,1,6680,1},
{120805,120805,1,6681,1},
{120806,120806,1,6682,1},
{120807,120807,1,6683,1},
{120808,120808,1,6684,1},
{120809,120809,1,6685,1},
{120810,120810,1,6686,1},
{120811,120811,1,6687,1},
{120812,120812,1,6688,1},
{120813,120813,1,6689,1},
{120814,120814,1,6690,1},
{120815,120815,1,6691,1},
{120816,120816,1,6692,1},
{120817,120817,1,6693,1},
{120818,120818,1,6694,1},
{120819,120819,1,6695,1},
{120820,120820,1,6696,1},
{120821,120821,1,6697,1},
{120822,120822,1,6698,1},
{120823,120823,1,6699,1},
{120824,120824,1,6700,1},
{120825,120825,1,6701,1},
{120826,120826,1,6702,1},
{120827,120827,1,6703,1},
{120828,120828,1,6704,1},
{120829,120829,1,6705,1},
{120830,120830,1,6706,1},
{120831,120831,1,6707,1},
{120832,121343,0,6708,0},
{121344,121398,0,6708,0},
{121399,121402,0,6708,0},
{121403,121452,0,6708,0},
{121453,121460,0,6708,0},
{121461,121461,0,6708,0},
{121462,121475,0,6708,0},
{121476,121476,0,6708,0},
{121477,121483,0,6708,0},
{121484,121498,4,6708,0},
{121499,121503,0,6708,0},
{121504,121504,4,6708,0},
{121505,121519,0,6708,0},
{121520,122879,4,6708,0},
{122880,122886,0,6708,0},
{122887,122887,4,6708,0},
{122888,122904,0,6708,0},
{122905,122906,4,6708,0},
{122907,122913,0,6708,0},
{122914,122914,4,6708,0},
{122915,122916,0,6708,0},
{122917,122917,4,6708,0},
{122918,122922,0,6708,0},
{122923,123135,4,6708,0},
{123136,123180,0,6708,0},
{123181,123183,4,6708,0},
{123184,123197,0,6708,0},
{123198,123199,4,6708,0},
{123200,123209,0,6708,0},
{123210,123213,4,6708,0},
{123214,123214,0,6708,0},
{123215,123215,0,6708,0},
{123216,123583,4,6708,0},
{123584,123641,0,6708,0},
{123642,123646,4,6708,0},
{123647,123647,0,6708,0},
{123648,124927,4,6708,0},
{124928,125124,0,6708,0},
{125125,125126,4,6708,0},
{125127,125135,0,6708,0},
{125136,125142,0,6708,0},
{125143,125183,4,6708,0},
{125184,125184,1,6708,1},
{125185,125185,1,6709,1},
{125186,125186,1,6710,1},
{125187,125187,1,6711,1},
{125188,125188,1,6712,1},
{125189,125189,1,6713,1},
{125190,125190,1,6714,1},
{125191,125191,1,6715,1},
{125192,125192,1,6716,1},
{125193,125193,1,6717,1},
{125194,125194,1,6718,1},
{125195,125195,1,6719,1},
{125196,125196,1,6720,1},
{125197,125197,1,6721,1},
{125198,125198,1,6722,1},
{125199,125199,1,6723,1},
{125200,125200,1,6724,1},
{125201,125201,1,6725,1},
{125202,125202,1,6726,1},
{125203,125203,1,6727,1},
{125204,125204,1,6728,1},
{125205,125205,1,6729,1},
{125206,125206,1,6730,1},
{125207,125207,1,6731,1},
{125208,125208,1,6732,1},
{125209,125209,1,6733,1},
{125210,125210,1,6734,1},
{125211,125211,1,6735,1},
{125212,125212,1,6736,1},
{125213,125213,1,6737,1},
{125214,125214,1,6738,1},
{125215,125215,1,6739,1},
{125216,125216,1,6740,1},
{125217,125217,1,6741,1},
{125218,125258,0,6742,0},
{125259,125259,0,6742,0},
{125260,125263,4,6742,0},
{125264,125273,0,6742,0},
{125274,125277,4,6742,0},
{125278,125279,0,6742,0},
{125280,126064,4,6742,0},
{126065,126132,0,6742,0},
{126133,126208,4,6742,0},
{126209,126269,0,6742,0},
{126270,126463,4,6742,0},
{126464,126464,1,6742,1},
{126465,126465,1,6743,1},
{126466,126466,1,6744,1},
{126467,126467,1,6745,1},
{126468,126468,4,6746,0},
{126469,126469,1,6746,1},
{126470,126470,1,6747,1},
{126471,126471,1,6748,1},
{126472,126472,1,6749,1},
{126473,126473,1,6750,1},
{126474,126474,1,6751,1},
{126475,126475,1,6752,1},
{126476,126476,1,6753,1},
{126477,126477,1,6754,1},
{126478,126478,1,6755,1},
{126479,126479,1,6756,1},
{126480,126480,1,6757,1},
{126481,126481,1,6758,1},
{126482,126482,1,6759,1},
{126483,126483,1,6760,1},
{126484,126484,1,6761,1},
{126485,126485,1,6762,1},
{126486,126486,1,6763,1},
{126487,126487,1,6764,1},
{126488,126488,1,6765,1},
{126489,126489,1,6766,1},
{126490,126490,1,6767,1},
{126491,126491,1,6768,1},
{126492,126492,1,6769,1},
{126493,126493,1,6770,1},
{126494,126494,1,6771,1},
{126495,126495,1,6772,1},
{126496,126496,4,6773,0},
{126497,126497,1,6773,1},
{126498,126498,1,6774,1},
{126499,126499,4,6775,0},
{126500,126500,1,6775,1},
{126501,126502,4,6776,0},
{126503,126503,1,6776,1},
{126504,126504,4,6777,0},
{126505,126505,1,6777,1},
{126506,126506,1,6778,1},
{126507,126507,1,6779,1},
{126508,126508,1,6780,1},
{126509,126509,1,6781,1},
{126510,126510,1,6782,1},
{126511,126511,1,6783,1},
{126512,126512,1,6784,1},
{126513,126513,1,6785,1},
{126514,126514,1,6786,1},
{126515,126515,4,6787,0},
{126516,126516,1,6787,1},
{126517,126517,1,6788,1},
{126518,126518,1,6789,1},
{126519,126519,1,6790,1},
{126520,126520,4,6791,0},
{126521,126521,1,6791,1},
{126522,126522,4,6792,0},
{126523,126523,1,6792,1},
{126524,126529,4,6793,0},
{126530,126530,1,6793,1},
{126531,126534,4,6794,0},
{126535,126535,1,6794,1},
{126536,126536,4,6795,0},
{126537,126537,1,6795,1},
{126538,126538,4,6796,0},
{126539,126539,1,6796,1},
{126540,126540,4,6797,0},
{126541,126541,1,6797,1},
{126542,126542,1,6798,1},
{126543,126543,1,6799,1},
{126544,126544,4,6800,0},
{126545,126545,1,6800,1},
{126546,126546,1,6801,1},
{126547,126547,4,6802,0},
{126548,126548,1,6802,1},
{126549,126550,4,6803,0},
{126551,126551,1,6803,1},
{126552,126552,4,6804,0},
{126553,126553,1,6804,1},
{126554,126554,4,6805,0},
{126555,126555,1,6805,1},
{126556,126556,4,6806,0},
{126557,126557,1,6806,1},
{126558,126558,4,6807,0},
{126559,126559,1,6807,1},
{126560,126560,4,6808,0},
{126561,126561,1,6808,1},
{126562,126562,1,6809,1},
{126563,126563,4,6810,0},
{126564,126564,1,6810,1},
{126565,126566,4,6811,0},
{126567,126567,1,6811,1},
{126568,126568,1,6812,1},
{126569,126569,1,6813,1},
{126570,126570,1,6814,1},
{126571,126571,4,6815,0},
{126572,126572,1,6815,1},
{126573,126573,1,6816,1},
{126574,126574,1,6817,1},
{126575,126575,1,6818,1},
{126576,126576,1,6819,1},
{126577,126577,1,6820,1},
{126578,126578,1,6821,1},
{126579,126579,4,6822,0},
{126580,126580,1,6822,1},
{126581,126581,1,6823,1},
{126582,126582,1,6824,1},
{126583,126583,1,6825,1},
{126584,126584,4,6826,0},
{126585,126585,1,6826,1},
{126586,126586,1,6827,1},
{126587,126587,1,6828,1},
{126588,126588,1,6829,1},
{126589,126589,4,6830,0},
{126590,126590,1,6830,1},
{126591,126591,4,6831,0},
{126592,126592,1,6831,1},
{126593,126593,1,6832,1},
{126594,126594,1,6833,1},
{126595,126595,1,6834,1},
{126596,126596,1,6835,1},
{126597,126597,1,6836,1},
{126598,126598,1,6837,1},
{126599,126599,1,6838,1},
{126600,126600,1,6839,1},
{126601,126601,1,6840,1},
{126602,126602,4,6841,0},
{126603,126603,1,6841,1},
{126604,126604,1,6842,1},
{126605,126605,1,6843,1},
{126606,126606,1,6844,1},
{126607,126607,1,6845,1},
{126608,126608,1,6846,1},
{126609,126609,1,6847,1},
{126610,126610,1,6848,1},
{126611,126611,1,6849,1},
{126612,126612,1,6850,1},
{126613,126613,1,6851,1},
{126614,126614,1,6852,1},
{126615,126615,1,6853,1},
{126616,126616,1,6854,1},
{126617,126617,1,6855,1},
{126618,126618,1,6856,1},
{126619,126619,1,6857,1},
{126620,126624,4,6858,0},
{126625,126625,1,6858,1},
{126626,126626,1,6859,1},
{126627,126627,1,6860,1},
{126628,126628,4,6861,0},
{126629,126629,1,6861,1},
{126630,126630,1,6862,1},
{126631,126631,1,6863,1},
{126632,126632,1,6864,1},
{126633,126633,1,6865,1},
{126634,126634,4,6866,0},
{126635,126635,1,6866,1},
{126636,126636,1,6867,1},
{126637,126637,1,6868,1},
{126638,126638,1,6869,1},
{126639,126639,1,6870,1},
{126640,126640,1,6871,1},
{126641,126641,1,6872,1},
{126642,126642,1,6873,1},
{126643,126643,1,6874,1},
{126644,126644,1,6875,1},
{126645,126645,1,6876,1},
{126646,126646,1,6877,1},
{126647,126647,1,6878,1},
{126648,126648,1,6879,1},
{126649,126649,1,6880,1},
{126650,126650,1,6881,1},
{126651,126651,1,6882,1},
{126652,126703,4,6883,0},
{126704,126705,0,6883,0},
{126706,126975,4,6883,0},
{126976,127019,0,6883,0},
{127020,127023,4,6883,0},
{127024,127123,0,6883,0},
{127124,127135,4,6883,0},
{127136,127150,0,6883,0},
{127151,127152,4,6883,0},
{127153,127166,0,6883,0},
{127167,127167,0,6883,0},
{127168,127168,4,6883,0},
{127169,127183,0,6883,0},
{127184,127184,4,6883,0},
{127185,127199,0,6883,0},
{127200,127221,0,6883,0},
{127222,127231,4,6883,0},
{127232,127232,4,6883,0},
{127233,127233,6,6883,2},
{127234,127234,6,6885,2},
{127235,127235,6,6887,2},
{127236,127236,6,6889,2},
{127237,127237,6,6891,2},
{127238,127238,6,6893,2},
{127239,127239,6,6895,2},
{127240,127240,6,6897,2},
{127241,127241,6,6899,2},
{127242,127242,6,6901,2},
{127243,127244,0,6903,0},
{127245,127247,0,6903,0},
{127248,127248,6,6903,3},
{127249,127249,6,6906,3},
{127250,127250,6,6909,3},
{127251,127251,6,6912,3},
{127252,127252,6,6915,3},
{127253,127253,6,6918,3},
{127254,127254,6,6921,3},
{127255,127255,6,6924,3},
{127256,127256,6,6927,3},
{127257,127257,6,6930,3},
{127258,127258,6,6933,3},
{127259,127259,6,6936,3},
{127260,127260,6,6939,3},
{127261,127261,6,6942,3},
{127262,127262,6,6945,3},
{127263,127263,6,6948,3},
{127264,127264,6,6951,3},
{127265,127265,6,6954,3},
{127266,127266,6,6957,3},
{127267,127267,6,6960,3},
{127268,127268,6,6963,3},
{127269,127269,6,6966,3},
{127270,127270,6,6969,3},
{127271,127271,6,6972,3},
{127272,127272,6,6975,3},
{127273,127273,6,6978,3},
{127274,127274,1,6981,3},
{127275,127275,1,6984,1},
{127276,127276,1,6985,1},
{127277,127277,1,6986,2},
{127278,127278,1,6988,2},
{127279,127279,0,6990,0},
{127280,127280,1,6990,1},
{127281,127281,1,6991,1},
{127282,127282,1,6992,1},
{127283,127283,1,6993,1},
{127284,127284,1,6994,1},
{127285,127285,1,6995,1},
{127286,127286,1,6996,1},
{127287,127287,1,6997,1},
{127288,127288,1,6998,1},
{127289,127289,1,6999,1},
{127290,127290,1,7000,1},
{127291,127291,1,7001,1},
{127292,127292,1,7002,1},
{127293,127293,1,7003,1},
{127294,127294,1,7004,1},
{127295,127295,1,7005,1},
{127296,127296,1,7006,1},
{127297,127297,1,7007,1},
{127298,127298,1,7008,1},
{127299,127299,1,7009,1},
{127300,127300,1,7010,1},
{127301,127301,1,7011,1},
{127302,127302,1,7012,1},
{127303,127303,1,7013,1},
{127304,127304,1,7014,1},
{127305,127305,1,7015,1},
{127306,127306,1,7016,2},
{127307,127307,1,7018,2},
{127308,127308,1,7020,2},
{127309,127309,1,7022,2},
{127310,127310,1,7024,3},
{127311,127311,1,7027,2},
{127312,127318,0,7029,0},
{127319,127319,0,7029,0},
{127320,127326,0,7029,0},
{127327,127327,0,7029,0},
{127328,127337,0,7029,0},
{127338,127338,1,7029,2},
{127339,127339,1,7031,2},
{127340,127340,1,7033,2},
{127341,127343,0,7035,0},
{127344,127352,0,7035,0},
{127353,127353,0,7035,0},
{127354,127354,0,7035,0},
{127355,127356,0,7035,0},
{127357,127358,0,7035,0},
{127359,127359,0,7035,0},
{127360,127369,0,7035,0},
{127370,127373,0,7035,0},
{127374,127375,0,7035,0},
{127376,127376,1,7035,2},
{127377,127386,0,7037,0},
{127387,127404,0,7037,0},
{127405,127405,0,7037,0},
{127406,127461,4,7037,0},
{127462,127487,0,7037,0},
{127488,127488,1,7037,2},
{127489,127489,1,7039,2},
{127490,127490,1,7041,1},
{127491,127503,4,7042,0},
{127504,127504,1,7042,1},
{127505,127505,1,7043,1},
{127506,127506,1,7044,1},
{127507,127507,1,7045,1},
{127508,127508,1,7046,1},
{127509,127509,1,7047,1},
{127510,127510,1,7048,1},
{127511,127511,1,7049,1},
{127512,127512,1,7050,1},
{127513,127513,1,7051,1},
{127514,127514,1,7052,1},
{127515,127515,1,7053,1},
{127516,127516,1,7054,1},
{127517,127517,1,7055,1},
{127518,127518,1,7056,1},
{127519,127519,1,7057,1},
{127520,127520,1,7058,1},
{127521,127521,1,7059,1},
{127522,127522,1,7060,1},
{127523,127523,1,7061,1},
{127524,127524,1,7062,1},
{127525,127525,1,7063,1},
{127526,127526,1,7064,1},
{127527,127527,1,7065,1},
{127528,127528,1,7066,1},
{127529,127529,1,7067,1},
{127530,127530,1,7068,1},
{127531,127531,1,7069,1},
{127532,127532,1,7070,1},
{127533,127533,1,7071,1},
{127534,127534,1,7072,1},
{127535,127535,1,7073,1},
{127536,127536,1,7074,1},
{127537,127537,1,7075,1},
{127538,127538,1,7076,1},
{127539,127539,1,7077,1},
{127540,127540,1,7078,1},
{127541,127541,1,7079,1},
{127542,127542,1,7080,1},
{127543,127543,1,7081,1},
{127544,127544,1,7082,1},
{127545,127545,1,7083,1},
{127546,127546,1,7084,1},
{127547,127547,1,7085,1},
{127548,127551,4,7086,0},
{127552,127552,1,7086,3},
{127553,127553,1,7089,3},
{127554,127554,1,7092,3},
{127555,127555,1,7095,3},
{127556,127556,1,7098,3},
{127557,127557,1,7101,3},
{127558,127558,1,7104,3},
{127559,127559,1,7107,3},
{127560,127560,1,7110,3},
{127561,127567,4,7113,0},
{127568,127568,1,7113,1},
{127569,127569,1,7114,1},
{127570,127583,4,7115,0},
{127584,127589,0,7115,0},
{127590,127743,4,7115,0},
{127744,127776,0,7115,0},
{127777,127788,0,7115,0},
{127789,127791,0,7115,0},
{127792,127797,0,7115,0},
{127798,127798,0,7115,0},
{127799,127868,0,7115,0},
{127869,127869,0,7115,0},
{127870,127871,0,7115,0},
{127872,127891,0,7115,0},
{127892,127903,0,7115,0},
{127904,127940,0,7115,0},
{127941,127941,0,7115,0},
{127942,127946,0,7115,0},
{127947,127950,0,7115,0},
{127951,127955,0,7115,0},
{127956,127967,0,7115,0},
{127968,127984,0,7115,0},
{127985,127991,0,7115,0},
{127992,127999,0,7115,0},
{128000,128062,0,7115,0},
{128063,128063,0,7115,0},
{128064,128064,0,7115,0},
{128065,128065,0,7115,0},
{128066,128247,0,7115,0},
{128248,128248,0,7115,0},
{128249,128252,0,7115,0},
{128253,128254,0,7115,0},
{128255,128255,0,7115,0},
{128256,128317,0,7115,0},
{128318,128319,0,7115,0},
{128320,128323,0,7115,0},
{128324,128330,0,7115,0},
{128331,128335,0,7115,0},
{128336,128359,0,7115,0},
{128360,128377,0,7115,0},
{128378,128378,0,7115,0},
{128379,128419,0,7115,0},
{128420,128420,0,7115,0},
{128421,128506,0,7115,0},
{128507,128511,0,7115,0},
{128512,128512,0,7115,0},
{128513,128528,0,7115,0},
{128529,128529,0,7115,0},
{128530,128532,0,7115,0},
{128533,128533,0,7115,0},
{128534,128534,0,7115,0},
{128535,128535,0,7115,0},
{128536,128536,0,7115,0},
{128537,128537,0,7115,0},
{128538,128538,0,7115,0},
{128539,128539,0,7115,0},
{128540,128542,0,7115,0},
{128543,128543,0,7115,0},
{128544,128549,0,7115,0},
{128550,128551,0,7115,0},
{128552,128555,0,7115,0},
{128556,128556,0,7115,0},
{128557,128557,0,7115,0},
{128558,128559,0,7115,0},
{128560,128563,0,7115,0},
{128564,128564,0,7115,0},
{128565,128576,0,7115,0},
{128577,128578,0,7115,0},
{128579,128580,0,7115,0},
{128581,128591,0,7115,0},
{128592,128639,0,7115,0},
{128640,128709,0,7115,0},
{128710,128719,0,7115,0},
{128720,128720,0,7115,0},
{128721,128722,0,7115,0},
{128723,128724,0,7115,0},
{128725,128725,0,7115,0},
{128726,128727,0,7115,0},
{128728,128735,4,7115,0},
{128736,128748,0,7115,0},
{128749,128751,4,7115,0},
{128752,128755,0,7115,0},
{128756,128758,0,7115,0},
{128759,128760,0,7115,0},
{128761,128761,0,7115,0},
{128762,128762,0,7115,0},
{128763,128764,0,7115,0},
{128765,128767,4,7115,0},
{128768,128883,0,7115,0},
{128884,128895,4,7115,0},
{128896,128980,0,7115,0},
{128981,128984,0,7115,0},
{128985,128991,4,7115,0},
{128992,129003,0,7115,0},
{129004,129023,4,7115,0},
{129024,129035,0,7115,0},
{129036,129039,4,7115,0},
{129040,129095,0,7115,0},
{129096,129103,4,7115,0},
{129104,129113,0,7115,0},
{129114,129119,4,7115,0},
{129120,129159,0,7115,0},
{129160,129167,4,7115,0},
{129168,129197,0,7115,0},
{129198,129199,4,7115,0},
{129200,129201,0,7115,0},
{129202,129279,4,7115,0},
{129280,129291,0,7115,0},
{129292,129292,0,7115,0},
{129293,129295,0,7115,0},
{129296,129304,0,7115,0},
{129305,129310,0,7115,0},
{129311,129311,0,7115,0},
{129312,129319,0,7115,0},
{129320,129327,0,7115,0},
{129328,129328,0,7115,0},
{129329,129330,0,7115,0},
{129331,129342,0,7115,0},
{129343,129343,0,7115,0},
{129344,129355,0,7115,0},
{129356,129356,0,7115,0},
{129357,129359,0,7115,0},
{129360,129374,0,7115,0},
{129375,129387,0,7115,0},
{129388,129392,0,7115,0},
{129393,129393,0,7115,0},
{129394,129394,0,7115,0},
{129395,129398,0,7115,0},
{129399,129400,0,7115,0},
{129401,129401,4,7115,0},
{129402,129402,0,7115,0},
{129403,129403,0,7115,0},
{129404,129407,0,7115,0},
{129408,129412,0,7115,0},
{129413,129425,0,7115,0},
{129426,129431,0,7115,0},
{129432,129442,0,7115,0},
{129443,129444,0,7115,0},
{129445,129450,0,7115,0},
{129451,129453,0,7115,0},
{129454,129455,0,7115,0},
{129456,129465,0,7115,0},
{129466,129471,0,7115,0},
{129472,129472,0,7115,0},
{129473,129474,0,7115,0},
{129475,129482,0,7115,0},
{129483,129483,0,7115,0},
{129484,129484,4,7115,0},
{129485,129487,0,7115,0},
{129488,129510,0,7115,0},
{129511,129535,0,7115,0},
{129536,129619,0,7115,0},
{129620,129631,4,7115,0},
{129632,129645,0,7115,0},
{129646,129647,4,7115,0},
{129648,129651,0,7115,0},
{129652,129652,0,7115,0},
{129653,129655,4,7115,0},
{129656,129658,0,7115,0},
{129659,129663,4,7115,0},
{129664,129666,0,7115,0},
{129667,129670,0,7115,0},
{129671,129679,4,7115,0},
{129680,129685,0,7115,0},
{129686,129704,0,7115,0},
{129705,129711,4,7115,0},
{129712,129718,0,7115,0},
{129719,129727,4,7115,0},
{129728,129730,0,7115,0},
{129731,129743,4,7115,0},
{129744,129750,0,7115,0},
{129751,129791,4,7115,0},
{129792,129938,0,7115,0},
{129939,129939,4,7115,0},
{129940,129994,0,7115,0},
{129995,130031,4,7115,0},
{130032,130032,1,7115,1},
{130033,130033,1,7116,1},
{130034,130034,1,7117,1},
{130035,130035,1,7118,1},
{130036,130036,1,7119,1},
{130037,130037,1,7120,1},
{130038,130038,1,7121,1},
{130039,130039,1,7122,1},
{130040,130040,1,7123,1},
{130041,130041,1,7124,1},
{130042,131069,4,7125,0},
{131070,131071,4,7125,0},
{131072,173782,0,7125,0},
{173783,173789,0,7125,0},
{173790,173823,4,7125,0},
{173824,177972,0,7125,0},
{177973,177983,4,7125,0},
{177984,178205,0,7125,0},
{178206,178207,4,7125,0},
{178208,183969,0,7125,0},
{183970,183983,4,7125,0},
{183984,191456,0,7125,0},
{191457,194559,4,7125,0},
{194560,194560,1,7125,1},
{194561,194561,1,7126,1},
{194562,194562,1,7127,1},
{194563,194563,1,7128,1},
{194564,194564,1,7129,1},
{194565,194565,1,7130,1},
{194566,194566,1,7131,1},
{194567,194567,1,7132,1},
{194568,194568,1,7133,1},
{194569,194569,1,7134,1},
{194570,194570,1,7135,1},
{194571,194571,1,7136,1},
{194572,194572,1,7137,1},
{194573,194573,1,7138,1},
{194574,194574,1,7139,1},
{194575,194575,1,7140,1},
{194576,194576,1,7141,1},
{194577,194577,1,7142,1},
{194578,194578,1,7143,1},
{194579,194579,1,7144,1},
{194580,194580,1,7145,1},
{194581,194581,1,7146,1},
{194582,194582,1,7147,1},
{194583,194583,1,7148,1},
{194584,194584,1,7149,1},
{194585,194585,1,7150,1},
{194586,194586,1,7151,1},
{194587,194587,1,7152,1},
{194588,194588,1,7153,1},
{194589,194589,1,7154,1},
{194590,194590,1,7155,1},
{194591,194591,1,7156,1},
{194592,194592,1,7157,1},
{194593,194593,1,7158,1},
{194594,194594,1,7159,1},
{194595,194595,1,7160,1},
{194596,194596,1,7161,1},
{194597,194597,1,7162,1},
{194598,194598,1,7163,1},
{194599,194599,1,7164,1},
{194600,194600,1,7165,1},
{194601,194601,1,7166,1},
{194602,194602,1,7167,1},
{194603,194603,1,7168,1},
{194604,194604,1,7169,1},
{194605,194605,1,7170,1},
{194606,194606,1,7171,1},
{194607,194607,1,7172,1},
{194608,194608,1,7173,1},
{194609,194611,1,7174,1},
{194612,194612,1,7175,1},
{194613,194613,1,7176,1},
{194614,194614,1,7177,1},
{194615,194615,1,7178,1},
{194616,194616,1,7179,1},
{194617,194617,1,7180,1},
{194618,194618,1,7181,1},
{194619,194619,1,7182,1},
{194620,194620,1,7183,1},
{194621,194621,1,7184,1},
{194622,194622,1,7185,1},
{194623,194623,1,7186,1},
{194624,194624,1,7187,1},
{194625,194625,1,7188,1},
{194626,194626,1,7189,1},
{194627,194627,1,7190,1},
{194628,194628,1,7191,1},
{194629,194630,1,7192,1},
{194631,194631,1,7193,1},
{194632,194632,1,7194,1},
{194633,194633,1,7195,1},
{194634,194634,1,7196,1},
{194635,194635,1,7197,1},
{194636,194636,1,7198,1},
{194637,194637,1,7199,1},
{194638,194638,1,7200,1},
{194639,194639,1,7201,1},
{194640,194640,1,7202,1},
{194641,194641,1,7203,1},
{194642,194642,1,7204,1},
{194643,194643,1,7205,1},
{194644,194644,1,7206,1},
{194645,194645,1,7207,1},
{194646,194646,1,7208,1},
{194647,194647,1,7209,1},
{194648,194648,1,7210,1},
{194649,194649,1,7211,1},
{194650,194650,1,7212,1},
{194651,194651,1,7213,1},
{194652,194652,1,7214,1},
{194653,194653,1,7215,1},
{194654,194654,1,7216,1},
{194655,194655,1,7217,1},
{194656,194656,1,7218,1},
{194657,194657,1,7219,1},
{194658,194658,1,7220,1},
{194659,194659,1,7221,1},
{194660,194660,1,7222,1},
{194661,194661,1,7223,1},
{194662,194662,1,7224,1},
{194663,194663,1,7225,1},
{194664,194664,4,7226,0},
{194665,194665,1,7226,1},
{194666,194667,1,7227,1},
{194668,194668,1,7228,1},
{194669,194669,1,7229,1},
{194670,194670,1,7230,1},
{194671,194671,1,7231,1},
{194672,194672,1,7232,1},
{194673,194673,1,7233,1},
{194674,194674,1,7234,1},
{194675,194675,1,7235,1},
{194676,194676,4,7236,0},
{194677,194677,1,7236,1},
{194678,194678,1,7237,1},
{194679,194679,1,7238,1},
{194680,194680,1,7239,1},
{194681,194681,1,7240,1},
{194682,194682,1,7241,1},
{194683,194683,1,7242,1},
{194684,194684,1,7243,1},
{194685,194685,1,7244,1},
{194686,194686,1,7245,1},
{194687,194687,1,7246,1},
{194688,194688,1,7247,1},
{194689,194689,1,7248,1},
{194690,194690,1,7249,1},
{194691,194691,1,7250,1},
{194692,194692,1,7251,1},
{194693,194693,1,7252,1},
{194694,194694,1,7253,1},
{194695,194695,1,7254,1},
{194696,194696,1,7255,1},
{194697,194697,1,7256,1},
{194698,194698,1,7257,1},
{194699,194699,1,7258,1},
{194700,194700,1,7259,1},
{194701,194701,1,7260,1},
{194702,194702,1,7261,1},
{194703,194703,1,7262,1},
{194704,194704,1,7263,1},
{194705,194706,1,7264,1},
{194707,194707,1,7265,1},
{194708,194709,1,7266,1},
{194710,194710,1,7267,1},
{194711,194711,1,7268,1},
{194712,194712,1,7269,1},
{194713,194713,1,7270,1},
{194714,194714,1,7271,1},
{194715,194715,1,7272,1},
{194716,194716,1,7273,1},
{194717,194717,1,7274,1},
{194718,194718,1,7275,1},
{194719,194719,1,7276,1},
{194720,194720,1,7277,1},
{194721,194721,1,7278,1},
{194722,194722,1,7279,1},
{194723,194723,1,7280,1},
{194724,194724,1,7281,1},
{194725,194725,1,7282,1},
{194726,194726,1,7283,1},
{194727,194727,1,7284,1},
{194728,194728,1,7285,1},
{194729,194729,1,7286,1},
{194730,194730,1,7287,1},
{194731,194731,1,7288,1},
{194732,194732,1,7289,1},
{194733,194733,1,7290,1},
{194734,194734,1,7291,1},
{194735,194735,1,7292,1},
{194736,194736,1,7293,1},
{194737,194737,1,7294,1},
{194738,194738,1,7295,1},
{194739,194739,1,7296,1},
{194740,194740,1,7297,1},
{194741,194741,1,7298,1},
{194742,194742,1,7299,1},
{194743,194743,1,7300,1},
{194744,194744,1,7301,1},
{194745,194745,1,7302,1},
{194746,194746,1,7303,1},
{194747,194747,1,7304,1},
{194748,194748,1,7305,1},
{194749,194749,1,7306,1},
{194750,194750,1,7307,1},
{194751,194751,1,7308,1},
{194752,194752,1,7309,1},
{194753,194753,1,7310,1},
{194754,194754,1,7311,1},
{194755,194755,1,7312,1},
{194756,194756,1,7313,1},
{194757,194757,1,7314,1},
{194758,194758,1,7315,1},
{194759,194759,1,7316,1},
{194760,194760,1,7317,1},
{194761,194761,1,7318,1},
{194762,194762,1,7319,1},
{194763,194763,1,7320,1},
{194764,194764,1,7321,1},
{194765,194765,1,7322,1},
{194766,194766,1,7323,1},
{194767,194767,1,7324,1},
{194768,194768,1,7325,1},
{194769,194769,1,7326,1},
{194770,194770,1,7327,1},
{194771,194771,1,7328,1},
{194772,194772,1,7329,1},
{194773,194773,1,7330,1},
{194774,194774,1,7331,1},
{194775,194775,1,7332,1},
{194776,194776,1,7333,1},
{194777,194777,1,7334,1},
{194778,194778,1,7335,1},
{194779,194779,1,7336,1},
{194780,194780,1,7337,1},
{194781,194781,1,7338,1},
{194782,194782,1,7339,1},
{194783,194783,1,7340,1},
{194784,194784,1,7341,1},
{194785,194785,1,7342,1},
{194786,194786,1,7343,1},
{194787,194787,1,7344,1},
{194788,194788,1,7345,1},
{194789,194789,1,7346,1},
{194790,194790,1,7347,1},
{194791,194791,1,7348,1},
{194792,194792,1,7349,1},
{194793,194793,1,7350,1},
{194794,194794,1,7351,1},
{194795,194795,1,7352,1},
{194796,194796,1,7353,1},
{194797,194797,1,7354,1},
{194798,194798,1,7355,1},
{194799,194799,1,7356,1},
{194800,194800,1,7357,1},
{194801,194801,1,7358,1},
{194802,194802,1,7359,1},
{194803,194803,1,7360,1},
{194804,194804,1,7361,1},
{194805,194805,1,7362,1},
{194806,194806,1,7363,1},
{194807,194807,1,7364,1},
{194808,194808,1,7365,1},
{194809,194809,1,7366,1},
{194810,194810,1,7367,1},
{194811,194811,1,7368,1},
{194812,194812,1,7369,1},
{194813,194813,1,7370,1},
{194814,194814,1,7371,1},
{194815,194815,1,7372,1},
{194816,194816,1,7373,1},
{194817,194817,1,7374,1},
{194818,194818,1,7375,1},
{194819,194819,1,7376,1},
{194820,194820,1,7377,1},
{194821,194821,1,7378,1},
{194822,194822,1,7379,1},
{194823,194823,1,7380,1},
{194824,194824,1,7381,1},
{194825,194825,1,7382,1},
{194826,194826,1,7383,1},
{194827,194827,1,7384,1},
{194828,194828,1,7385,1},
{194829,194829,1,7386,1},
{194830,194830,1,7387,1},
{194831,194831,1,7388,1},
{194832,194832,1,7389,1},
{194833,194833,1,7390,1},
{194834,194834,1,7391,1},
{194835,194835,1,7392,1},
{194836,194836,1,7393,1},
{194837,194837,1,7394,1},
{194838,194838,1,7395,1},
{194839,194839,1,7396,1},
{194840,194840,1,7397,1},
{194841,194841,1,7398,1},
{194842,194842,1,7399,1},
{194843,194843,1,7400,1},
{194844,194844,1,7401,1},
{194845,194845,1,7402,1},
{194846,194846,1,7403,1},
{194847,194847,4,7404,0},
{194848,194848,1,7404,1},
{194849,194849,1,7405,1},
{194850,194850,1,7406,1},
{194851,194851,1,7407,1},
{194852,194852,1,7408,1},
{194853,194853,1,7409,1},
{194854,194854,1,7410,1},
{194855,194855,1,7411,1},
{194856,194856,1,7412,1},
{194857,194857,1,7413,1},
{194858,194858,1,7414,1},
{194859,194859,1,7415,1},
{194860,194861,1,7416,1},
{194862,194862,1,7417,1},
{194863,194863,1,7418,1},
{194864,194864,1,7419,1},
{194865,194865,1,7420,1},
{194866,194866,1,7421,1},
{194867,194867,1,7422,1},
{194868,194868,1,7423,1},
{194869,194869,1,7424,1},
{194870,194870,1,7425,1},
{194871,194871,1,7426,1},
{194872,194872,1,7427,1},
{194873,194873,1,7428,1},
{194874,194874,1,7429,1},
{194875,194875,1,7430,1},
{194876,194876,1,7431,1},
{194877,194877,1,7432,1},
{194878,194878,1,7433,1},
{194879,194879,1,7434,1},
{194880,194880,1,7435,1},
{194881,194881,1,7436,1},
{194882,194882,1,7437,1},
{194883,194883,1,7438,1},
{194884,194884,1,7439,1},
{194885,194885,1,7440,1},
{194886,194887,1,7441,1},
{194888,194888,1,7442,1},
{194889,194889,1,7443,1},
{194890,194890,1,7444,1},
{194891,194891,1,7445,1},
{194892,194892,1,7446,1},
{194893,194893,1,7447,1},
{194894,194894,1,7448,1},
{194895,194895,1,7449,1},
{194896,194896,1,7450,1},
{194897,194897,1,7451,1},
{194898,194898,1,7452,1},
{194899,194899,1,7453,1},
{194900,194900,1,7454,1},
{194901,194901,1,7455,1},
{194902,194902,1,7456,1},
{194903,194903,1,7457,1},
{194904,194904,1,7458,1},
{194905,194905,1,7459,1},
{194906,194906,1,7460,1},
{194907,194907,1,7461,1},
{194908,194908,1,7462,1},
{194909,194910,1,7463,1},
{194911,194911,4,7464,0},
{194912,194912,1,7464,1},
{194913,194913,1,7465,1},
{194914,194914,1,7466,1},
{194915,194915,1,7467,1},
{194916,194916,1,7468,1},
{194917,194917,1,7469,1},
{194918,194918,1,7470,1},
{194919,194919,1,7471,1},
{194920,194920,1,7472,1},
{194921,194921,1,7473,1},
{194922,194922,1,7474,1},
{194923,194923,1,7475,1},
{194924,194924,1,7476,1},
{194925,194925,1,7477,1},
{194926,194926,1,7478,1},
{194927,194927,1,7479,1},
{194928,194928,1,7480,1},
{194929,194929,1,7481,1},
{194930,194930,1,7482,1},
{194931,194931,1,7483,1},
{194932,194932,1,7484,1},
{194933,194933,1,7485,1},
{194934,194934,1,7486,1},
{194935,194935,1,7487,1},
{194936,194936,1,7488,1},
{194937,194937,1,7489,1},
{194938,194938,1,7490,1},
{194939,194939,1,7491,1},
{194940,194940,1,7492,1},
{194941,194941,1,7493,1},
{194942,194942,1,7494,1},
{194943,194943,1,7495,1},
{194944,194944,1,7496,1},
{194945,194945,1,7497,1},
{194946,194946,1,7498,1},
{194947,194947,1,7499,1},
{194948,194948,1,7500,1},
{194949,194949,1,7501,1},
{194950,194950,1,7502,1},
{194951,194951,1,7503,1},
{194952,194952,1,7504,1},
{194953,194953,1,7505,1},
{194954,194954,1,7506,1},
{194955,194955,1,7507,1},
{194956,194956,1,7508,1},
{194957,194957,1,7509,1},
{194958,194958,1,7510,1},
{194959,194959,1,7511,1},
{194960,194960,1,7512,1},
{194961,194961,1,7513,1},
{194962,194962,1,7514,1},
{194963,194963,1,7515,1},
{194964,194964,1,7516,1},
{194965,194965,1,7517,1},
{194966,194966,1,7518,1},
{194967,194967,1,7519,1},
{194968,194968,1,7520,1},
{194969,194969,1,7521,1},
{194970,194970,1,7522,1},
{194971,194971,1,7523,1},
{194972,194972,1,7524,1},
{194973,194973,1,7525,1},
{194974,194974,1,7526,1},
{194975,194975,1,7527,1},
{194976,194976,1,7528,1},
{194977,194977,1,7529,1},
{194978,194978,1,7530,1},
{194979,194979,1,7531,1},
{194980,194980,1,7532,1},
{194981,194981,1,7533,1},
{194982,194982,1,7534,1},
{194983,194983,1,7535,1},
{194984,194984,1,7536,1},
{194985,194985,1,7537,1},
{194986,194986,1,7538,1},
{194987,194987,1,7539,1},
{194988,194988,1,7540,1},
{194989,194989,1,7541,1},
{194990,194990,1,7542,1},
{194991,194991,1,7543,1},
{194992,194992,1,7544,1},
{194993,194993,1,7545,1},
{194994,194994,1,7546,1},
{194995,194995,1,7547,1},
{194996,194996,1,7548,1},
{194997,194997,1,7549,1},
{194998,194998,1,7550,1},
{194999,194999,1,7551,1},
{195000,195000,1,7552,1},
{195001,195001,1,7553,1},
{195002,195002,1,7554,1},
{195003,195003,1,7555,1},
{195004,195004,1,7556,1},
{195005,195005,1,7557,1},
{195006,195006,1,7558,1},
{195007,195007,4,7559,0},
{195008,195008,1,7559,1},
{195009,195009,1,7560,1},
{195010,195010,1,7561,1},
{195011,195011,1,7562,1},
{195012,195012,1,7563,1},
{195013,195013,1,7564,1},
{195014,195014,1,7565,1},
{195015,195015,1,7566,1},
{195016,195016,1,7567,1},
{195017,195017,1,7568,1},
{195018,195018,1,7569,1},
{195019,195019,1,7570,1},
{195020,195020,1,7571,1},
{195021,195021,1,7572,1},
{195022,195022,1,7573,1},
{195023,195023,1,7574,1},
{195024,195024,1,7575,1},
{195025,195025,1,7576,1},
{195026,195026,1,7577,1},
{195027,195027,1,7578,1},
{195028,195028,1,7579,1},
{195029,195029,1,7580,1},
{195030,195030,1,7581,1},
{195031,195031,1,7582,1},
{195032,195032,1,7583,1},
{195033,195033,1,7584,1},
{195034,195034,1,7585,1},
{195035,195035,1,7586,1},
{195036,195036,1,7587,1},
{195037,195037,1,7588,1},
{195038,195038,1,7589,1},
{195039,195039,1,7590,1},
{195040,195040,1,7591,1},
{195041,195041,1,7592,1},
{195042,195042,1,7593,1},
{195043,195043,1,7594,1},
{195044,195044,1,7595,1},
{195045,195045,1,7596,1},
{195046,195046,1,7597,1},
{195047,195047,1,7598,1},
{195048,195048,1,7599,1},
{195049,195049,1,7600,1},
{195050,195050,1,7601,1},
{195051,195051,1,7602,1},
{195052,195052,1,7603,1},
{195053,195053,1,7604,1},
{195054,195054,1,7605,1},
{195055,195055,1,7606,1},
{195056,195056,1,7607,1},
{195057,195057,1,7608,1},
{195058,195058,1,7609,1},
{195059,195059,1,7610,1},
{195060,195060,1,7611,1},
{195061,195061,1,7612,1},
{195062,195062,1,7613,1},
{195063,195063,1,7614,1},
{195064,195064,1,7615,1},
{195065,195065,1,7616,1},
{195066,195066,1,7617,1},
{195067,195067,1,7618,1},
{195068,195068,1,7619,1},
{195069,195069,1,7620,1},
{195070,195071,1,7621,1},
{195072,195072,1,7622,1},
{195073,195073,1,7623,1},
{195074,195074,1,7624,1},
{195075,195075,1,7625,1},
{195076,195076,1,7626,1},
{195077,195077,1,7627,1},
{195078,195078,1,7628,1},
{195079,195079,1,7629,1},
{195080,195080,1,7630,1},
{195081,195081,1,7631,1},
{195082,195082,1,7632,1},
{195083,195083,1,7633,1},
{195084,195084,1,7634,1},
{195085,195085,1,7635,1},
{195086,195086,1,7636,1},
{195087,195087,1,7637,1},
{195088,195088,1,7638,1},
{195089,195089,1,7639,1},
{195090,195090,1,7640,1},
{195091,195091,1,7641,1},
{195092,195092,1,7642,1},
{195093,195093,1,7643,1},
{195094,195094,1,7644,1},
{195095,195095,1,7645,1},
{195096,195096,1,7646,1},
{195097,195097,1,7647,1},
{195098,195098,1,7648,1},
{195099,195099,1,7649,1},
{195100,195100,1,7650,1},
{195101,195101,1,7651,1},
{195102,196605,4,7652,0},
{196606,196607,4,7652,0},
{196608,201546,0,7652,0},
{201547,262141,4,7652,0},
{262142,262143,4,7652,0},
{262144,327677,4,7652,0},
{327678,327679,4,7652,0},
{327680,393213,4,7652,0},
{393214,393215,4,7652,0},
{393216,458749,4,7652,0},
{458750,458751,4,7652,0},
{458752,524285,4,7652,0},
{524286,524287,4,7652,0},
{524288,589821,4,7652,0},
{589822,589823,4,7652,0},
{589824,655357,4,7652,0},
{655358,655359,4,7652,0},
{655360,720893,4,7652,0},
{720894,720895,4,7652,0},
{720896,786429,4,7652,0},
{786430,786431,4,7652,0},
{786432,851965,4,7652,0},
{851966,851967,4,7652,0},
{851968,917501,4,7652,0},
{917502,917503,4,7652,0},
{917504,917504,4,7652,0},
{917505,917505,4,7652,0},
{917506,917535,4,7652,0},
{917536,917631,4,7652,0},
{917632,917759,4,7652,0},
{917760,917999,2,7652,0},
{918000,983037,4,7652,0},
{983038,983039,4,7652,0},
{983040,1048573,4,7652,0},
{1048574,1048575,4,7652,0},
{1048576,1114109,4,7652,0},
{1114110,1114111,4,7652,0},
};
static const unsigned idna_pool[] = {97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,32,32,776,97,32,772,50,51,32,769,956,32,807,49,111,49,8260,52,49,8260,50,51,8260,52,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,248,249,250,251,252,253,254,115,115,257,259,261,263,265,267,269,271,273,275,277,279,281,283,285,287,289,291,293,295,297,299,301,303,105,775,105,106,309,311,314,316,318,108,183,322,324,326,328,700,110,331,333,335,337,339,341,343,345,347,349,351,353,355,357,359,361,363,365,367,369,371,373,375,255,378,380,382,115,595,387,389,596,392,598,599,396,477,601,603,402,608,611,617,616,409,623,626,629,417,419,421,640,424,643,429,648,432,650,651,436,438,658,441,445,100,382,108,106,110,106,462,464,466,468,470,472,474,476,479,481,483,485,487,489,491,493,495,100,122,501,405,447,505,507,509,511,513,515,517,519,521,523,525,527,529,531,533,535,537,539,541,543,414,547,549,551,553,555,557,559,561,563,11365,572,410,11366,578,384,649,652,583,585,587,589,591,104,614,106,114,633,635,641,119,121,32,774,32,775,32,778,32,808,32,771,32,779,611,108,115,120,661,768,769,787,776,769,953,881,883,697,887,32,953,59,1011,32,769,32,776,769,940,183,941,942,943,972,973,974,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,970,971,963,983,946,952,965,973,971,966,960,985,987,989,991,993,995,997,999,1001,1003,1005,1007,954,961,963,952,949,1016,963,1019,891,892,893,1104,1105,1106,1107,1108,1109,1110,1111,1112,1113,1114,1115,1116,1117,1118,1119,1072,1073,1074,1075,1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,1099,1100,1101,1102,1103,1121,1123,1125,1127,1129,1131,1133,1135,1137,1139,1141,1143,1145,1147,1149,1151,1153,1163,1165,1167,1169,1171,1173,1175,1177,1179,1181,1183,1185,1187,1189,1191,1193,1195,1197,1199,1201,1203,1205,1207,1209,1211,1213,1215,1218,1220,1222,1224,1226,1228,1230,1233,1235,1237,1239,1241,1243,1245,1247,1249,1251,1253,1255,1257,1259,1261,1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291,1293,1295,1297,1299,1301,1303,1305,1307,1309,1311,1313,1315,1317,1319,1321,1323,1325,1327,1377,1378,1379,1380,1381,1382,1383,1384,1385,1386,1387,1388,1389,1390,1391,1392,1393,1394,1395,1396,1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,1410,1411,1412,1413,1414,1381,1410,1575,1652,1608,1652,1735,1652,1610,1652,2325,2364,2326,2364,2327,2364,2332,2364,2337,2364,2338,2364,2347,2364,2351,2364,2465,2492,2466,2492,2479,2492,2610,2620,2616,2620,2582,2620,2583,2620,2588,2620,2603,2620,2849,2876,2850,2876,3661,3634,3789,3762,3755,3737,3755,3745,3851,3906,4023,3916,4023,3921,4023,3926,4023,3931,4023,3904,4021,3953,3954,3953,3956,4018,3968,4018,3953,3968,4019,3968,4019,3953,3968,3953,3968,3986,4023,3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,11559,11565,4316,5104,5105,5106,5107,5108,5109,1074,1076,1086,1089,1090,1098,1123,42571,4304,4305,4306,4307,4308,4309,4310,4311,4312,4313,4314,4315,4316,4317,4318,4319,4320,4321,4322,4323,4324,4325,4326,4327,4328,4329,4330,4331,4332,4333,4334,4335,4336,4337,4338,4339,4340,4341,4342,4343,4344,4345,4346,4349,4350,4351,97,230,98,100,101,477,103,104,105,106,107,108,109,110,111,547,112,114,116,117,119,97,592,593,7426,98,100,101,601,603,604,103,107,109,331,111,596,7446,7447,112,116,117,7453,623,118,7461,946,947,948,966,967,105,114,117,118,946,947,961,966,967,1085,594,99,597,240,604,102,607,609,613,616,617,618,7547,669,621,7557,671,625,624,626,627,628,629,632,642,643,427,649,650,7452,651,652,122,656,657,658,952,7681,7683,7685,7687,7689,7691,7693,7695,7697,7699,7701,7703,7705,7707,7709,7711,7713,7715,7717,7719,7721,7723,7725,7727,7729,7731,7733,7735,7737,7739,7741,7743,7745,7747,7749,7751,7753,7755,7757,7759,7761,7763,7765,7767,7769,7771,7773,7775,7777,7779,7781,7783,7785,7787,7789,7791,7793,7795,7797,7799,7801,7803,7805,7807,7809,7811,7813,7815,7817,7819,7821,7823,7825,7827,7829,97,702,7777,115,115,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,7863,7865,7867,7869,7871,7873,7875,7877,7879,7881,7883,7885,7887,7889,7891,7893,7895,7897,7899,7901,7903,7905,7907,7909,7911,7913,7915,7917,7919,7921,7923,7925,7927,7929,7931,7933,7935,7936,7937,7938,7939,7940,7941,7942,7943,7952,7953,7954,7955,7956,7957,7968,7969,7970,7971,7972,7973,7974,7975,7984,7985,7986,7987,7988,7989,7990,7991,8000,8001,8002,8003,8004,8005,8017,8019,8021,8023,8032,8033,8034,8035,8036,8037,8038,8039,940,941,942,943,972,973,974,7936,953,7937,953,7938,953,7939,953,7940,953,7941,953,7942,953,7943,953,7936,953,7937,953,7938,953,7939,953,7940,953,7941,953,7942,953,7943,953,7968,953,7969,953,7970,953,7971,953,7972,953,7973,953,7974,953,7975,953,7968,953,7969,953,7970,953,7971,953,7972,953,7973,953,7974,953,7975,953,8032,953,8033,953,8034,953,8035,953,8036,953,8037,953,8038,953,8039,953,8032,953,8033,953,8034,953,8035,953,8036,953,8037,953,8038,953,8039,953,8048,953,945,953,940,953,8118,953,8112,8113,8048,940,945,953,32,787,953,32,787,32,834,32,776,834,8052,953,951,953,942,953,8134,953,8050,941,8052,942,951,953,32,787,768,32,787,769,32,787,834,912,8144,8145,8054,943,32,788,768,32,788,769,32,788,834,944,8160,8161,8058,973,8165,32,776,768,32,776,769,96,8060,953,969,953,974,953,8182,953,8056,972,8060,974,969,953,32,769,32,788,32,8208,32,819,32,8242,8242,8242,8242,8242,8245,8245,8245,8245,8245,33,33,32,773,63,63,63,33,33,63,8242,8242,8242,8242,32,48,105,52,53,54,55,56,57,43,8722,61,40,41,110,48,49,50,51,52,53,54,55,56,57,43,8722,61,40,41,97,101,111,120,601,104,107,108,109,110,112,115,116,114,115,97,47,99,97,47,115,99,176,99,99,47,111,99,47,117,603,176,102,103,104,295,105,108,110,110,111,112,113,114,115,109,116,101,108,116,109,122,969,122,107,229,98,99,101,102,109,111,1488,1489,1490,1491,105,102,97,120,960,947,960,8721,100,101,105,106,49,8260,55,49,8260,57,49,8260,49,48,49,8260,51,50,8260,51,49,8260,53,50,8260,53,51,8260,53,52,8260,53,49,8260,54,53,8260,54,49,8260,56,51,8260,56,53,8260,56,55,8260,56,49,8260,105,105,105,105,105,105,105,118,118,118,105,118,105,105,118,105,105,105,105,120,120,120,105,120,105,105,108,99,100,109,105,105,105,105,105,105,105,118,118,118,105,118,105,105,118,105,105,105,105,120,120,120,105,120,105,105,108,99,100,109,48,8260,51,8747,8747,8747,8747,8747,8750,8750,8750,8750,8750,12296,12297,49,50,51,52,53,54,55,56,57,49,48,49,49,49,50,49,51,49,52,49,53,49,54,49,55,49,56,49,57,50,48,40,49,41,40,50,41,40,51,41,40,52,41,40,53,41,40,54,41,40,55,41,40,56,41,40,57,41,40,49,48,41,40,49,49,41,40,49,50,41,40,49,51,41,40,49,52,41,40,49,53,41,40,49,54,41,40,49,55,41,40,49,56,41,40,49,57,41,40,50,48,41,40,97,41,40,98,41,40,99,41,40,100,41,40,101,41,40,102,41,40,103,41,40,104,41,40,105,41,40,106,41,40,107,41,40,108,41,40,109,41,40,110,41,40,111,41,40,112,41,40,113,41,40,114,41,40,115,41,40,116,41,40,117,41,40,118,41,40,119,41,40,120,41,40,121,41,40,122,41,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,48,8747,8747,8747,8747,58,58,61,61,61,61,61,61,10973,824,11312,11313,11314,11315,11316,11317,11318,11319,11320,11321,11322,11323,11324,11325,11326,11327,11328,11329,11330,11331,11332,11333,11334,11335,11336,11337,11338,11339,11340,11341,11342,11343,11344,11345,11346,11347,11348,11349,11350,11351,11352,11353,11354,11355,11356,11357,11358,11361,619,7549,637,11368,11370,11372,593,625,592,594,11379,11382,106,118,575,576,11393,11395,11397,11399,11401,11403,11405,11407,11409,11411,11413,11415,11417,11419,11421,11423,11425,11427,11429,11431,11433,11435,11437,11439,11441,11443,11445,11447,11449,11451,11453,11455,11457,11459,11461,11463,11465,11467,11469,11471,11473,11475,11477,11479,11481,11483,11485,11487,11489,11491,11500,11502,11507,11617,27597,40863,19968,20008,20022,20031,20057,20101,20108,20128,20154,20799,20837,20843,20866,20886,20907,20960,20981,20992,21147,21241,21269,21274,21304,21313,21340,21353,21378,21430,21448,21475,22231,22303,22763,22786,22794,22805,22823,22899,23376,23424,23544,23567,23586,23608,23662,23665,24027,24037,24049,24062,24178,24186,24191,24308,24318,24331,24339,24400,24417,24435,24515,25096,25142,25163,25903,25908,25991,26007,26020,26041,26080,26085,26352,26376,26408,27424,27490,27513,27571,27595,27604,27611,27663,27668,27700,28779,29226,29238,29243,29247,29255,29273,29275,29356,29572,29577,29916,29926,29976,29983,29992,30000,30091,30098,30326,30333,30382,30399,30446,30683,30690,30707,31034,31160,31166,31348,31435,31481,31859,31992,32566,32593,32650,32701,32769,32780,32786,32819,32895,32905,33251,33258,33267,33276,33292,33307,33311,33390,33394,33400,34381,34411,34880,34892,34915,35198,35211,35282,35328,35895,35910,35925,35960,35997,36196,36208,36275,36523,36554,36763,36784,36789,37009,37193,37318,37324,37329,38263,38272,38428,38582,38585,38632,38737,38750,38754,38761,38859,38893,38899,38913,39080,39131,39135,39318,39321,39340,39592,39640,39647,39717,39727,39730,39740,39770,40165,40565,40575,40613,40635,40643,40653,40657,40697,40701,40718,40723,40736,40763,40778,40786,40845,40860,40864,32,46,12306,21313,21316,21317,32,12441,32,12442,12424,12426,12467,12488,4352,4353,4522,4354,4524,4525,4355,4356,4357,4528,4529,4530,4531,4532,4533,4378,4358,4359,4360,4385,4361,4362,4363,4364,4365,4366,4367,4368,4369,4370,4449,4450,4451,4452,4453,4454,4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,4469,4372,4373,4551,4552,4556,4558,4563,4567,4569,4380,4573,4575,4381,4382,4384,4386,4387,4391,4393,4395,4396,4397,4398,4399,4402,4406,4416,4423,4428,4593,4594,4439,4440,4441,4484,4485,4488,4497,4498,4500,4510,4513,19968,20108,19977,22235,19978,20013,19979,30002,20057,19993,19969,22825,22320,20154,40,4352,41,40,4354,41,40,4355,41,40,4357,41,40,4358,41,40,4359,41,40,4361,41,40,4363,41,40,4364,41,40,4366,41,40,4367,41,40,4368,41,40,4369,41,40,4370,41,40,44032,41,40,45208,41,40,45796,41,40,46972,41,40,47560,41,40,48148,41,40,49324,41,40,50500,41,40,51088,41,40,52264,41,40,52852,41,40,53440,41,40,54028,41,40,54616,41,40,51452,41,40,50724,51204,41,40,50724,54980,41,40,19968,41,40,20108,41,40,19977,41,40,22235,41,40,20116,41,40,20845,41,40,19971,41,40,20843,41,40,20061,41,40,21313,41,40,26376,41,40,28779,41,40,27700,41,40,26408,41,40,37329,41,40,22303,41,40,26085,41,40,26666,41,40,26377,41,40,31038,41,40,21517,41,40,29305,41,40,36001,41,40,31069,41,40,21172,41,40,20195,41,40,21628,41,40,23398,41,40,30435,41,40,20225,41,40,36039,41,40,21332,41,40,31085,41,40,20241,41,40,33258,41,40,33267,41,21839,24188,25991,31631,112,116,101,50,49,50,50,50,51,50,52,50,53,50,54,50,55,50,56,50,57,51,48,51,49,51,50,51,51,51,52,51,53,4352,4354,4355,4357,4358,4359,4361,4363,4364,4366,4367,4368,4369,4370,44032,45208,45796,46972,47560,48148,49324,50500,51088,52264,52852,53440,54028,54616,52280,44256,51452,51032,50864,19968,20108,19977,22235,20116,20845,19971,20843,20061,21313,26376,28779,27700,26408,37329,22303,26085,26666,26377,31038,21517,29305,36001,31069,21172,31192,30007,22899,36969,20778,21360,27880,38917,20241,20889,27491,19978,20013,19979,24038,21491,21307,23447,23398,30435,20225,36039,21332,22812,51,54,51,55,51,56,51,57,52,48,52,49,52,50,52,51,52,52,52,53,52,54,52,55,52,56,52,57,53,48,49,26376,50,26376,51,26376,52,26376,53,26376,54,26376,55,26376,56,26376,57,26376,49,48,26376,49,49,26376,49,50,26376,104,103,101,114,103,101,118,108,116,100,12450,12452,12454,12456,12458,12459,12461,12463,12465,12467,12469,12471,12473,12475,12477,12479,12481,12484,12486,12488,12490,12491,12492,12493,12494,12495,12498,12501,12504,12507,12510,12511,12512,12513,12514,12516,12518,12520,12521,12522,12523,12524,12525,12527,12528,12529,12530,20196,21644,12450,12497,12540,12488,12450,12523,12501,12449,12450,12531,12506,12450,12450,12540,12523,12452,12491,12531,12464,12452,12531,12481,12454,12457,12531,12456,12473,12463,12540,12489,12456,12540,12459,12540,12458,12531,12473,12458,12540,12512,12459,12452,12522,12459,12521,12483,12488,12459,12525,12522,12540,12460,12525,12531,12460,12531,12510,12462,12460,12462,12491,12540,12461,12517,12522,12540,12462,12523,12480,12540,12461,12525,12461,12525,12464,12521,12512,12461,12525,12513,12540,12488,12523,12461,12525,12527,12483,12488,12464,12521,12512,12464,12521,12512,12488,12531,12463,12523,12476,12452,12525,12463,12525,12540,12493,12465,12540,12473,12467,12523,12490,12467,12540,12509,12469,12452,12463,12523,12469,12531,12481,12540,12512,12471,12522,12531,12464,12475,12531,12481,12475,12531,12488,12480,12540,12473,12487,12471,12489,12523,12488,12531,12490,12494,12494,12483,12488,12495,12452,12484,12497,12540,12475,12531,12488,12497,12540,12484,12496,12540,12524,12523,12500,12450,12473,12488,12523,12500,12463,12523,12500,12467,12499,12523,12501,12449,12521,12483,12489,12501,12451,12540,12488,12502,12483,12471,12455,12523,12501,12521,12531,12504,12463,12479,12540,12523,12506,12477,12506,12491,12498,12504,12523,12484,12506,12531,12473,12506,12540,12472,12505,12540,12479,12509,12452,12531,12488,12508,12523,12488,12507,12531,12509,12531,12489,12507,12540,12523,12507,12540,12531,12510,12452,12463,12525,12510,12452,12523,12510,12483,12495,12510,12523,12463,12510,12531,12471,12519,12531,12511,12463,12525,12531,12511,12522,12511,12522,12496,12540,12523,12513,12460,12513,12460,12488,12531,12513,12540,12488,12523,12516,12540,12489,12516,12540,12523,12518,12450,12531,12522,12483,12488,12523,12522,12521,12523,12500,12540,12523,12540,12502,12523,12524,12512,12524,12531,12488,12466,12531,12527,12483,12488,48,28857,49,28857,50,28857,51,28857,52,28857,53,28857,54,28857,55,28857,56,28857,57,28857,49,48,28857,49,49,28857,49,50,28857,49,51,28857,49,52,28857,49,53,28857,49,54,28857,49,55,28857,49,56,28857,49,57,28857,50,48,28857,50,49,28857,50,50,28857,50,51,28857,50,52,28857,104,112,97,100,97,97,117,98,97,114,111,118,112,99,100,109,100,109,50,100,109,51,105,117,24179,25104,26157,21644,22823,27491,26126,27835,26666,24335,20250,31038,112,97,110,97,956,97,109,97,107,97,107,98,109,98,103,98,99,97,108,107,99,97,108,112,102,110,102,956,102,956,103,109,103,107,103,104,122,107,104,122,109,104,122,103,104,122,116,104,122,956,108,109,108,100,108,107,108,102,109,110,109,956,109,109,109,99,109,107,109,109,109,50,99,109,50,109,50,107,109,50,109,109,51,99,109,51,109,51,107,109,51,109,8725,115,109,8725,115,50,112,97,107,112,97,109,112,97,103,112,97,114,97,100,114,97,100,8725,115,114,97,100,8725,115,50,112,115,110,115,956,115,109,115,112,118,110,118,956,118,109,118,107,118,109,118,112,119,110,119,956,119,109,119,107,119,109,119,107,969,109,969,98,113,99,99,99,100,99,8725,107,103,100,98,103,121,104,97,104,112,105,110,107,107,107,109,107,116,108,109,108,110,108,111,103,108,120,109,98,109,105,108,109,111,108,112,104,112,112,109,112,114,115,114,115,118,119,98,118,8725,109,97,8725,109,49,26085,50,26085,51,26085,52,26085,53,26085,54,26085,55,26085,56,26085,57,26085,49,48,26085,49,49,26085,49,50,26085,49,51,26085,49,52,26085,49,53,26085,49,54,26085,49,55,26085,49,56,26085,49,57,26085,50,48,26085,50,49,26085,50,50,26085,50,51,26085,50,52,26085,50,53,26085,50,54,26085,50,55,26085,50,56,26085,50,57,26085,51,48,26085,51,49,26085,103,97,108,42561,42563,42565,42567,42569,42571,42573,42575,42577,42579,42581,42583,42585,42587,42589,42591,42593,42595,42597,42599,42601,42603,42605,42625,42627,42629,42631,42633,42635,42637,42639,42641,42643,42645,42647,42649,42651,1098,1100,42787,42789,42791,42793,42795,42797,42799,42803,42805,42807,42809,42811,42813,42815,42817,42819,42821,42823,42825,42827,42829,42831,42833,42835,42837,42839,42841,42843,42845,42847,42849,42851,42853,42855,42857,42859,42861,42863,42863,42874,42876,7545,42879,42881,42883,42885,42887,42892,613,42897,42899,42903,42905,42907,42909,42911,42913,42915,42917,42919,42921,614,604,609,620,618,670,647,669,43859,42933,42935,42937,42939,42941,42943,42947,42900,642,7566,42952,42954,42998,295,339,42791,43831,619,43858,653,5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,5037,5038,5039,5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,5053,5054,5055,5056,5057,5058,5059,5060,5061,5062,5063,5064,5065,5066,5067,5068,5069,5070,5071,5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,5082,5083,5084,5085,5086,5087,5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,5098,5099,5100,5101,5102,5103,35912,26356,36554,36040,28369,20018,21477,40860,22865,37329,21895,22856,25078,30313,32645,34367,34746,35064,37007,27138,27931,28889,29662,33853,37226,39409,20098,21365,27396,29211,34349,40478,23888,28651,34253,35172,25289,33240,34847,24266,26391,28010,29436,37070,20358,20919,21214,25796,27347,29200,30439,32769,34310,34396,36335,38706,39791,40442,30860,31103,32160,33737,37636,40575,35542,22751,24324,31840,32894,29282,30922,36034,38647,22744,23650,27155,28122,28431,32047,32311,38475,21202,32907,20956,20940,31260,32190,33777,38517,35712,25295,27138,35582,20025,23527,24594,29575,30064,21271,30971,20415,24489,19981,27852,25976,32034,21443,22622,30465,33865,35498,27578,36784,27784,25342,33509,25504,30053,20142,20841,20937,26753,31975,33391,35538,37327,21237,21570,22899,24300,26053,28670,31018,38317,39530,40599,40654,21147,26310,27511,36706,24180,24976,25088,25754,28451,29001,29833,31178,32244,32879,36646,34030,36899,37706,21015,21155,21693,28872,35010,35498,24265,24565,25467,27566,31806,29557,20196,22265,23527,23994,24604,29618,29801,32666,32838,37428,38646,38728,38936,20363,31150,37300,38584,24801,20102,20698,23534,23615,26009,27138,29134,30274,34044,36988,40845,26248,38446,21129,26491,26611,27969,28316,29705,30041,30827,32016,39006,20845,25134,38520,20523,23833,28138,36650,24459,24900,26647,29575,38534,21033,21519,23653,26131,26446,26792,27877,29702,30178,32633,35023,35041,37324,38626,21311,28346,21533,29136,29848,34298,38563,40023,40607,26519,28107,33256,31435,31520,31890,29376,28825,35672,20160,33590,21050,20999,24230,25299,31958,23429,27934,26292,36667,34892,38477,35211,24275,20800,21952,22618,26228,20958,29482,30410,31036,31070,31077,31119,38742,31934,32701,34322,35576,36920,37117,39151,39164,39208,40372,37086,38583,20398,20711,20813,21193,21220,21329,21917,22022,22120,22592,22696,23652,23662,24724,24936,24974,25074,25935,26082,26257,26757,28023,28186,28450,29038,29227,29730,30865,31038,31049,31048,31056,31062,31069,31117,31118,31296,31361,31680,32244,32265,32321,32626,32773,33261,33401,33879,35088,35222,35585,35641,36051,36104,36790,36920,38627,38911,38971,24693,148206,33304,20006,20917,20840,20352,20805,20864,21191,21242,21917,21845,21913,21986,22618,22707,22852,22868,23138,23336,24274,24281,24425,24493,24792,24910,24840,24974,24928,25074,25140,25540,25628,25682,25942,26228,26391,26395,26454,27513,27578,27969,28379,28363,28450,28702,29038,30631,29237,29359,29482,29809,29958,30011,30237,30239,30410,30427,30452,30538,30528,30924,31409,31680,31867,32091,32244,32574,32773,33618,33775,34681,35137,35206,35222,35519,35576,35531,35585,35582,35565,35641,35722,36104,36664,36978,37273,37494,38524,38627,38742,38875,38911,38923,38971,39698,40860,141386,141380,144341,15261,16408,16441,152137,154832,163539,40771,40846,102,102,102,105,102,108,102,102,105,102,102,108,115,116,1396,1398,1396,1381,1396,1387,1406,1398,1396,1389,1497,1460,1522,1463,1506,1488,1491,1492,1499,1500,1501,1512,1514,43,1513,1473,1513,1474,1513,1468,1473,1513,1468,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,1491,1468,1492,1468,1493,1468,1494,1468,1496,1468,1497,1468,1498,1468,1499,1468,1500,1468,1502,1468,1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,1512,1468,1513,1468,1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,1488,1500,1649,1659,1662,1664,1658,1663,1657,1700,1702,1668,1667,1670,1671,1677,1676,1678,1672,1688,1681,1705,1711,1715,1713,1722,1723,1728,1729,1726,1746,1747,1709,1735,1734,1736,1735,1652,1739,1733,1737,1744,1609,1574,1575,1574,1749,1574,1608,1574,1735,1574,1734,1574,1736,1574,1744,1574,1609,1740,1574,1580,1574,1581,1574,1605,1574,1609,1574,1610,1576,1580,1576,1581,1576,1582,1576,1605,1576,1609,1576,1610,1578,1580,1578,1581,1578,1582,1578,1605,1578,1609,1578,1610,1579,1580,1579,1605,1579,1609,1579,1610,1580,1581,1580,1605,1581,1580,1581,1605,1582,1580,1582,1581,1582,1605,1587,1580,1587,1581,1587,1582,1587,1605,1589,1581,1589,1605,1590,1580,1590,1581,1590,1582,1590,1605,1591,1581,1591,1605,1592,1605,1593,1580,1593,1605,1594,1580,1594,1605,1601,1580,1601,1581,1601,1582,1601,1605,1601,1609,1601,1610,1602,1581,1602,1605,1602,1609,1602,1610,1603,1575,1603,1580,1603,1581,1603,1582,1603,1604,1603,1605,1603,1609,1603,1610,1604,1580,1604,1581,1604,1582,1604,1605,1604,1609,1604,1610,1605,1580,1605,1581,1605,1582,1605,1605,1605,1609,1605,1610,1606,1580,1606,1581,1606,1582,1606,1605,1606,1609,1606,1610,1607,1580,1607,1605,1607,1609,1607,1610,1610,1580,1610,1581,1610,1582,1610,1605,1610,1609,1610,1610,1584,1648,1585,1648,1609,1648,32,1612,1617,32,1613,1617,32,1614,1617,32,1615,1617,32,1616,1617,32,1617,1648,1574,1585,1574,1586,1574,1605,1574,1606,1574,1609,1574,1610,1576,1585,1576,1586,1576,1605,1576,1606,1576,1609,1576,1610,1578,1585,1578,1586,1578,1605,1578,1606,1578,1609,1578,1610,1579,1585,1579,1586,1579,1605,1579,1606,1579,1609,1579,1610,1601,1609,1601,1610,1602,1609,1602,1610,1603,1575,1603,1604,1603,1605,1603,1609,1603,1610,1604,1605,1604,1609,1604,1610,1605,1575,1605,1605,1606,1585,1606,1586,1606,1605,1606,1606,1606,1609,1606,1610,1609,1648,1610,1585,1610,1586,1610,1605,1610,1606,1610,1609,1610,1610,1574,1580,1574,1581,1574,1582,1574,1605,1574,1607,1576,1580,1576,1581,1576,1582,1576,1605,1576,1607,1578,1580,1578,1581,1578,1582,1578,1605,1578,1607,1579,1605,1580,1581,1580,1605,1581,1580,1581,1605,1582,1580,1582,1605,1587,1580,1587,1581,1587,1582,1587,1605,1589,1581,1589,1582,1589,1605,1590,1580,1590,1581,1590,1582,1590,1605,1591,1581,1592,1605,1593,1580,1593,1605,1594,1580,1594,1605,1601,1580,1601,1581,1601,1582,1601,1605,1602,1581,1602,1605,1603,1580,1603,1581,1603,1582,1603,1604,1603,1605,1604,1580,1604,1581,1604,1582,1604,1605,1604,1607,1605,1580,1605,1581,1605,1582,1605,1605,1606,1580,1606,1581,1606,1582,1606,1605,1606,1607,1607,1580,1607,1605,1607,1648,1610,1580,1610,1581,1610,1582,1610,1605,1610,1607,1574,1605,1574,1607,1576,1605,1576,1607,1578,1605,1578,1607,1579,1605,1579,1607,1587,1605,1587,1607,1588,1605,1588,1607,1603,1604,1603,1605,1604,1605,1606,1605,1606,1607,1610,1605,1610,1607,1600,1614,1617,1600,1615,1617,1600,1616,1617,1591,1609,1591,1610,1593,1609,1593,1610,1594,1609,1594,1610,1587,1609,1587,1610,1588,1609,1588,1610,1581,1609,1581,1610,1580,1609,1580,1610,1582,1609,1582,1610,1589,1609,1589,1610,1590,1609,1590,1610,1588,1580,1588,1581,1588,1582,1588,1605,1588,1585,1587,1585,1589,1585,1590,1585,1591,1609,1591,1610,1593,1609,1593,1610,1594,1609,1594,1610,1587,1609,1587,1610,1588,1609,1588,1610,1581,1609,1581,1610,1580,1609,1580,1610,1582,1609,1582,1610,1589,1609,1589,1610,1590,1609,1590,1610,1588,1580,1588,1581,1588,1582,1588,1605,1588,1585,1587,1585,1589,1585,1590,1585,1588,1580,1588,1581,1588,1582,1588,1605,1587,1607,1588,1607,1591,1605,1587,1580,1587,1581,1587,1582,1588,1580,1588,1581,1588,1582,1591,1605,1592,1605,1575,1611,1578,1580,1605,1578,1581,1580,1578,1581,1605,1578,1582,1605,1578,1605,1580,1578,1605,1581,1578,1605,1582,1580,1605,1581,1581,1605,1610,1581,1605,1609,1587,1581,1580,1587,1580,1581,1587,1580,1609,1587,1605,1581,1587,1605,1580,1587,1605,1605,1589,1581,1581,1589,1605,1605,1588,1581,1605,1588,1580,1610,1588,1605,1582,1588,1605,1605,1590,1581,1609,1590,1582,1605,1591,1605,1581,1591,1605,1605,1591,1605,1610,1593,1580,1605,1593,1605,1605,1593,1605,1609,1594,1605,1605,1594,1605,1610,1594,1605,1609,1601,1582,1605,1602,1605,1581,1602,1605,1605,1604,1581,1605,1604,1581,1610,1604,1581,1609,1604,1580,1580,1604,1582,1605,1604,1605,1581,1605,1581,1580,1605,1581,1605,1605,1581,1610,1605,1580,1581,1605,1580,1605,1605,1582,1580,1605,1582,1605,1605,1580,1582,1607,1605,1580,1607,1605,1605,1606,1581,1605,1606,1581,1609,1606,1580,1605,1606,1580,1609,1606,1605,1610,1606,1605,1609,1610,1605,1605,1576,1582,1610,1578,1580,1610,1578,1580,1609,1578,1582,1610,1578,1582,1609,1578,1605,1610,1578,1605,1609,1580,1605,1610,1580,1581,1609,1580,1605,1609,1587,1582,1609,1589,1581,1610,1588,1581,1610,1590,1581,1610,1604,1580,1610,1604,1605,1610,1610,1581,1610,1610,1580,1610,1610,1605,1610,1605,1605,1610,1602,1605,1610,1606,1581,1610,1602,1605,1581,1604,1581,1605,1593,1605,1610,1603,1605,1610,1606,1580,1581,1605,1582,1610,1604,1580,1605,1603,1605,1605,1604,1580,1605,1606,1580,1581,1580,1581,1610,1581,1580,1610,1605,1580,1610,1601,1605,1610,1576,1581,1610,1603,1605,1605,1593,1580,1605,1589,1605,1605,1587,1582,1610,1606,1580,1610,1589,1604,1746,1602,1604,1746,1575,1604,1604,1607,1575,1603,1576,1585,1605,1581,1605,1583,1589,1604,1593,1605,1585,1587,1608,1604,1593,1604,1610,1607,1608,1587,1604,1605,1589,1604,1609,1589,1604,1609,32,1575,1604,1604,1607,32,1593,1604,1610,1607,32,1608,1587,1604,1605,1580,1604,32,1580,1604,1575,1604,1607,1585,1740,1575,1604,44,12289,58,59,33,63,12310,12311,8212,8211,95,40,41,123,125,12308,12309,12304,12305,12298,12299,12296,12297,12300,12301,12302,12303,91,93,32,773,95,44,12289,59,58,63,33,8212,40,41,123,125,12308,12309,35,38,42,43,45,60,62,61,92,36,37,64,32,1611,1600,1611,32,1612,32,1613,32,1614,1600,1614,32,1615,1600,1615,32,1616,1600,1616,32,1617,1600,1617,32,1618,1600,1618,1569,1570,1571,1572,1573,1574,1575,1576,1577,1578,1579,1580,1581,1582,1583,1584,1585,1586,1587,1588,1589,1590,1591,1592,1593,1594,1601,1602,1603,1604,1605,1606,1607,1608,1609,1610,1604,1570,1604,1571,1604,1573,1604,1575,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,10629,10630,46,12300,12301,12289,12539,12530,12449,12451,12453,12455,12457,12515,12517,12519,12483,12540,12450,12452,12454,12456,12458,12459,12461,12463,12465,12467,12469,12471,12473,12475,12477,12479,12481,12484,12486,12488,12490,12491,12492,12493,12494,12495,12498,12501,12504,12507,12510,12511,12512,12513,12514,12516,12518,12520,12521,12522,12523,12524,12525,12527,12531,12441,12442,4352,4353,4522,4354,4524,4525,4355,4356,4357,4528,4529,4530,4531,4532,4533,4378,4358,4359,4360,4385,4361,4362,4363,4364,4365,4366,4367,4368,4369,4370,4449,4450,4451,4452,4453,4454,4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,4469,162,163,172,32,772,166,165,8361,9474,8592,8593,8594,8595,9632,9675,66600,66601,66602,66603,66604,66605,66606,66607,66608,66609,66610,66611,66612,66613,66614,66615,66616,66617,66618,66619,66620,66621,66622,66623,66624,66625,66626,66627,66628,66629,66630,66631,66632,66633,66634,66635,66636,66637,66638,66639,66776,66777,66778,66779,66780,66781,66782,66783,66784,66785,66786,66787,66788,66789,66790,66791,66792,66793,66794,66795,66796,66797,66798,66799,66800,66801,66802,66803,66804,66805,66806,66807,66808,66809,66810,66811,68800,68801,68802,68803,68804,68805,68806,68807,68808,68809,68810,68811,68812,68813,68814,68815,68816,68817,68818,68819,68820,68821,68822,68823,68824,68825,68826,68827,68828,68829,68830,68831,68832,68833,68834,68835,68836,68837,68838,68839,68840,68841,68842,68843,68844,68845,68846,68847,68848,68849,68850,71872,71873,71874,71875,71876,71877,71878,71879,71880,71881,71882,71883,71884,71885,71886,71887,71888,71889,71890,71891,71892,71893,71894,71895,71896,71897,71898,71899,71900,71901,71902,71903,93792,93793,93794,93795,93796,93797,93798,93799,93800,93801,93802,93803,93804,93805,93806,93807,93808,93809,93810,93811,93812,93813,93814,93815,93816,93817,93818,93819,93820,93821,93822,93823,119127,119141,119128,119141,119128,119141,119150,119128,119141,119151,119128,119141,119152,119128,119141,119153,119128,119141,119154,119225,119141,119226,119141,119225,119141,119150,119226,119141,119150,119225,119141,119151,119226,119141,119151,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,99,100,103,106,107,110,111,112,113,115,116,117,118,119,120,121,122,97,98,99,100,102,104,105,106,107,108,109,110,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,100,101,102,103,106,107,108,109,110,111,112,113,115,116,117,118,119,120,121,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,100,101,102,103,105,106,107,108,109,111,115,116,117,118,119,120,121,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,305,567,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,989,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,125218,125219,125220,125221,125222,125223,125224,125225,125226,125227,125228,125229,125230,125231,125232,125233,125234,125235,125236,125237,125238,125239,125240,125241,125242,125243,125244,125245,125246,125247,125248,125249,125250,125251,1575,1576,1580,1583,1608,1586,1581,1591,1610,1603,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,1646,1722,1697,1647,1576,1580,1607,1581,1610,1603,1604,1605,1606,1587,1593,1601,1589,1602,1588,1578,1579,1582,1590,1594,1580,1581,1610,1604,1606,1587,1593,1589,1602,1588,1582,1590,1594,1722,1647,1576,1580,1607,1581,1591,1610,1603,1605,1606,1587,1593,1601,1589,1602,1588,1578,1579,1582,1590,1592,1594,1646,1697,1575,1576,1580,1583,1607,1608,1586,1581,1591,1610,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,1576,1580,1583,1608,1586,1581,1591,1610,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,48,44,49,44,50,44,51,44,52,44,53,44,54,44,55,44,56,44,57,44,40,97,41,40,98,41,40,99,41,40,100,41,40,101,41,40,102,41,40,103,41,40,104,41,40,105,41,40,106,41,40,107,41,40,108,41,40,109,41,40,110,41,40,111,41,40,112,41,40,113,41,40,114,41,40,115,41,40,116,41,40,117,41,40,118,41,40,119,41,40,120,41,40,121,41,40,122,41,12308,115,12309,99,114,99,100,119,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,104,118,109,118,115,100,115,115,112,112,118,119,99,109,99,109,100,109,114,100,106,12411,12363,12467,12467,12469,25163,23383,21452,12487,20108,22810,35299,22825,20132,26144,28961,26009,21069,24460,20877,26032,21021,32066,29983,36009,22768,21561,28436,25237,25429,19968,19977,36938,24038,20013,21491,25351,36208,25171,31105,31354,21512,28288,26377,26376,30003,21106,21942,37197,12308,26412,12309,12308,19977,12309,12308,20108,12309,12308,23433,12309,12308,28857,12309,12308,25171,12309,12308,30423,12309,12308,21213,12309,12308,25943,12309,24471,21487,48,49,50,51,52,53,54,55,56,57,20029,20024,20033,131362,20320,20398,20411,20482,20602,20633,20711,20687,13470,132666,20813,20820,20836,20855,132380,13497,20839,20877,132427,20887,20900,20172,20908,20917,168415,20981,20995,13535,21051,21062,21106,21111,13589,21191,21193,21220,21242,21253,21254,21271,21321,21329,21338,21363,21373,21375,133676,28784,21450,21471,133987,21483,21489,21510,21662,21560,21576,21608,21666,21750,21776,21843,21859,21892,21913,21931,21939,21954,22294,22022,22295,22097,22132,20999,22766,22478,22516,22541,22411,22578,22577,22700,136420,22770,22775,22790,22810,22818,22882,136872,136938,23020,23067,23079,23000,23142,14062,23304,23358,137672,23491,23512,23527,23539,138008,23551,23558,23586,14209,23648,23662,23744,23693,138724,23875,138726,23918,23915,23932,24033,24034,14383,24061,24104,24125,24169,14434,139651,14460,24240,24243,24246,24266,172946,24318,140081,33281,24354,14535,144056,156122,24418,24427,14563,24474,24525,24535,24569,24705,14650,14620,24724,141012,24775,24904,24908,24910,24908,24954,24974,25010,24996,25007,25054,25074,25078,25104,25115,25181,25265,25300,25424,142092,25405,25340,25448,25475,25572,142321,25634,25541,25513,14894,25705,25726,25757,25719,14956,25935,25964,143370,26083,26360,26185,15129,26257,15112,15076,20882,20885,26368,26268,32941,17369,26391,26395,26401,26462,26451,144323,15177,26618,26501,26706,26757,144493,26766,26655,26900,15261,26946,27043,27114,27304,145059,27355,15384,27425,145575,27476,15438,27506,27551,27578,27579,146061,138507,146170,27726,146620,27839,27853,27751,27926,27966,28023,27969,28009,28024,28037,146718,27956,28207,28270,15667,28363,28359,147153,28153,28526,147294,147342,28614,28729,28702,28699,15766,28746,28797,28791,28845,132389,28997,148067,29084,29224,29237,29264,149000,29312,29333,149301,149524,29562,29579,16044,29605,16056,29767,29788,29809,29829,29898,16155,29988,150582,30014,150674,30064,139679,30224,151457,151480,151620,16380,16392,30452,151795,151794,151833,151859,30494,30495,30538,16441,30603,16454,16534,152605,30798,30860,30924,16611,153126,31062,153242,153285,31119,31211,16687,31296,31306,31311,153980,154279,16898,154539,31686,31689,16935,154752,31954,17056,31976,31971,32000,155526,32099,17153,32199,32258,32325,17204,156200,156231,17241,156377,32634,156478,32661,32762,32773,156890,156963,32864,157096,32880,144223,17365,32946,33027,17419,33086,23221,157607,157621,144275,144284,33281,33284,36766,17515,33425,33419,33437,21171,33457,33459,33469,33510,158524,33509,33565,33635,33709,33571,33725,33767,33879,33619,33738,33740,33756,158774,159083,158933,17707,34033,34035,34070,160714,34148,159532,17757,17761,159665,159954,17771,34384,34396,34407,34409,34473,34440,34574,34530,34681,34600,34667,34694,34785,34817,17913,34912,34915,161383,35031,35038,17973,35066,13499,161966,162150,18110,18119,35488,35565,35722,35925,162984,36011,36033,36123,36215,163631,133124,36299,36284,36336,133342,36564,36664,165330,165357,37012,37105,37137,165678,37147,37432,37591,37592,37500,37881,37909,166906,38283,18837,38327,167287,18918,38595,23986,38691,168261,168474,19054,19062,38880,168970,19122,169110,38923,38953,169398,39138,19251,39209,39335,39362,39422,19406,170800,39698,40000,40189,19662,19693,40295,172238,19704,172293,172558,172689,40635,19798,40697,40702,40709,40719,40726,40763,173568};
