//! General categories of the characters assigned in Unicode 15.0.0 (from Python's unicodedata; the
//! ranges are sorted, characters not listed are unassigned there, or changed later: U+1171E).
#[rustfmt::skip]
pub const CATS: &[(u32, u32, &str)] = &[
(0,31,"Cc"),(32,32,"Zs"),(33,35,"Po"),(36,36,"Sc"),(37,39,"Po"),(40,40,"Ps"),(41,41,"Pe"),(42,42,"Po"),(43,43,"Sm"),(44,44,"Po"),(45,45,"Pd"),
(46,47,"Po"),(48,57,"Nd"),(58,59,"Po"),(60,62,"Sm"),(63,64,"Po"),(65,90,"Lu"),(91,91,"Ps"),(92,92,"Po"),(93,93,"Pe"),(94,94,"Sk"),(95,95,"Pc"),
(96,96,"Sk"),(97,122,"Ll"),(123,123,"Ps"),(124,124,"Sm"),(125,125,"Pe"),(126,126,"Sm"),(127,159,"Cc"),(160,160,"Zs"),(161,161,"Po"),(162,165,"Sc"),
(166,166,"So"),(167,167,"Po"),(168,168,"Sk"),(169,169,"So"),(170,170,"Lo"),(171,171,"Pi"),(172,172,"Sm"),(173,173,"Cf"),(174,174,"So"),(175,175,"Sk"),
(176,176,"So"),(177,177,"Sm"),(178,179,"No"),(180,180,"Sk"),(181,181,"Ll"),(182,183,"Po"),(184,184,"Sk"),(185,185,"No"),(186,186,"Lo"),(187,187,"Pf"),
(188,190,"No"),(191,191,"Po"),(192,214,"Lu"),(215,215,"Sm"),(216,222,"Lu"),(223,246,"Ll"),(247,247,"Sm"),(248,255,"Ll"),(256,256,"Lu"),(257,257,"Ll"),
(258,258,"Lu"),(259,259,"Ll"),(260,260,"Lu"),(261,261,"Ll"),(262,262,"Lu"),(263,263,"Ll"),(264,264,"Lu"),(265,265,"Ll"),(266,266,"Lu"),(267,267,"Ll"),
(268,268,"Lu"),(269,269,"Ll"),(270,270,"Lu"),(271,271,"Ll"),(272,272,"Lu"),(273,273,"Ll"),(274,274,"Lu"),(275,275,"Ll"),(276,276,"Lu"),(277,277,"Ll"),
(278,278,"Lu"),(279,279,"Ll"),(280,280,"Lu"),(281,281,"Ll"),(282,282,"Lu"),(283,283,"Ll"),(284,284,"Lu"),(285,285,"Ll"),(286,286,"Lu"),(287,287,"Ll"),
(288,288,"Lu"),(289,289,"Ll"),(290,290,"Lu"),(291,291,"Ll"),(292,292,"Lu"),(293,293,"Ll"),(294,294,"Lu"),(295,295,"Ll"),(296,296,"Lu"),(297,297,"Ll"),
(298,298,"Lu"),(299,299,"Ll"),(300,300,"Lu"),(301,301,"Ll"),(302,302,"Lu"),(303,303,"Ll"),(304,304,"Lu"),(305,305,"Ll"),(306,306,"Lu"),(307,307,"Ll"),
(308,308,"Lu"),(309,309,"Ll"),(310,310,"Lu"),(311,312,"Ll"),(313,313,"Lu"),(314,314,"Ll"),(315,315,"Lu"),(316,316,"Ll"),(317,317,"Lu"),(318,318,"Ll"),
(319,319,"Lu"),(320,320,"Ll"),(321,321,"Lu"),(322,322,"Ll"),(323,323,"Lu"),(324,324,"Ll"),(325,325,"Lu"),(326,326,"Ll"),(327,327,"Lu"),(328,329,"Ll"),
(330,330,"Lu"),(331,331,"Ll"),(332,332,"Lu"),(333,333,"Ll"),(334,334,"Lu"),(335,335,"Ll"),(336,336,"Lu"),(337,337,"Ll"),(338,338,"Lu"),(339,339,"Ll"),
(340,340,"Lu"),(341,341,"Ll"),(342,342,"Lu"),(343,343,"Ll"),(344,344,"Lu"),(345,345,"Ll"),(346,346,"Lu"),(347,347,"Ll"),(348,348,"Lu"),(349,349,"Ll"),
(350,350,"Lu"),(351,351,"Ll"),(352,352,"Lu"),(353,353,"Ll"),(354,354,"Lu"),(355,355,"Ll"),(356,356,"Lu"),(357,357,"Ll"),(358,358,"Lu"),(359,359,"Ll"),
(360,360,"Lu"),(361,361,"Ll"),(362,362,"Lu"),(363,363,"Ll"),(364,364,"Lu"),(365,365,"Ll"),(366,366,"Lu"),(367,367,"Ll"),(368,368,"Lu"),(369,369,"Ll"),
(370,370,"Lu"),(371,371,"Ll"),(372,372,"Lu"),(373,373,"Ll"),(374,374,"Lu"),(375,375,"Ll"),(376,377,"Lu"),(378,378,"Ll"),(379,379,"Lu"),(380,380,"Ll"),
(381,381,"Lu"),(382,384,"Ll"),(385,386,"Lu"),(387,387,"Ll"),(388,388,"Lu"),(389,389,"Ll"),(390,391,"Lu"),(392,392,"Ll"),(393,395,"Lu"),(396,397,"Ll"),
(398,401,"Lu"),(402,402,"Ll"),(403,404,"Lu"),(405,405,"Ll"),(406,408,"Lu"),(409,411,"Ll"),(412,413,"Lu"),(414,414,"Ll"),(415,416,"Lu"),(417,417,"Ll"),
(418,418,"Lu"),(419,419,"Ll"),(420,420,"Lu"),(421,421,"Ll"),(422,423,"Lu"),(424,424,"Ll"),(425,425,"Lu"),(426,427,"Ll"),(428,428,"Lu"),(429,429,"Ll"),
(430,431,"Lu"),(432,432,"Ll"),(433,435,"Lu"),(436,436,"Ll"),(437,437,"Lu"),(438,438,"Ll"),(439,440,"Lu"),(441,442,"Ll"),(443,443,"Lo"),(444,444,"Lu"),
(445,447,"Ll"),(448,451,"Lo"),(452,452,"Lu"),(453,453,"Lt"),(454,454,"Ll"),(455,455,"Lu"),(456,456,"Lt"),(457,457,"Ll"),(458,458,"Lu"),(459,459,"Lt"),
(460,460,"Ll"),(461,461,"Lu"),(462,462,"Ll"),(463,463,"Lu"),(464,464,"Ll"),(465,465,"Lu"),(466,466,"Ll"),(467,467,"Lu"),(468,468,"Ll"),(469,469,"Lu"),
(470,470,"Ll"),(471,471,"Lu"),(472,472,"Ll"),(473,473,"Lu"),(474,474,"Ll"),(475,475,"Lu"),(476,477,"Ll"),(478,478,"Lu"),(479,479,"Ll"),(480,480,"Lu"),
(481,481,"Ll"),(482,482,"Lu"),(483,483,"Ll"),(484,484,"Lu"),(485,485,"Ll"),(486,486,"Lu"),(487,487,"Ll"),(488,488,"Lu"),(489,489,"Ll"),(490,490,"Lu"),
(491,491,"Ll"),(492,492,"Lu"),(493,493,"Ll"),(494,494,"Lu"),(495,496,"Ll"),(497,497,"Lu"),(498,498,"Lt"),(499,499,"Ll"),(500,500,"Lu"),(501,501,"Ll"),
(502,504,"Lu"),(505,505,"Ll"),(506,506,"Lu"),(507,507,"Ll"),(508,508,"Lu"),(509,509,"Ll"),(510,510,"Lu"),(511,511,"Ll"),(512,512,"Lu"),(513,513,"Ll"),
(514,514,"Lu"),(515,515,"Ll"),(516,516,"Lu"),(517,517,"Ll"),(518,518,"Lu"),(519,519,"Ll"),(520,520,"Lu"),(521,521,"Ll"),(522,522,"Lu"),(523,523,"Ll"),
(524,524,"Lu"),(525,525,"Ll"),(526,526,"Lu"),(527,527,"Ll"),(528,528,"Lu"),(529,529,"Ll"),(530,530,"Lu"),(531,531,"Ll"),(532,532,"Lu"),(533,533,"Ll"),
(534,534,"Lu"),(535,535,"Ll"),(536,536,"Lu"),(537,537,"Ll"),(538,538,"Lu"),(539,539,"Ll"),(540,540,"Lu"),(541,541,"Ll"),(542,542,"Lu"),(543,543,"Ll"),
(544,544,"Lu"),(545,545,"Ll"),(546,546,"Lu"),(547,547,"Ll"),(548,548,"Lu"),(549,549,"Ll"),(550,550,"Lu"),(551,551,"Ll"),(552,552,"Lu"),(553,553,"Ll"),
(554,554,"Lu"),(555,555,"Ll"),(556,556,"Lu"),(557,557,"Ll"),(558,558,"Lu"),(559,559,"Ll"),(560,560,"Lu"),(561,561,"Ll"),(562,562,"Lu"),(563,569,"Ll"),
(570,571,"Lu"),(572,572,"Ll"),(573,574,"Lu"),(575,576,"Ll"),(577,577,"Lu"),(578,578,"Ll"),(579,582,"Lu"),(583,583,"Ll"),(584,584,"Lu"),(585,585,"Ll"),
(586,586,"Lu"),(587,587,"Ll"),(588,588,"Lu"),(589,589,"Ll"),(590,590,"Lu"),(591,659,"Ll"),(660,660,"Lo"),(661,687,"Ll"),(688,705,"Lm"),(706,709,"Sk"),
(710,721,"Lm"),(722,735,"Sk"),(736,740,"Lm"),(741,747,"Sk"),(748,748,"Lm"),(749,749,"Sk"),(750,750,"Lm"),(751,767,"Sk"),(768,879,"Mn"),(880,880,"Lu"),
(881,881,"Ll"),(882,882,"Lu"),(883,883,"Ll"),(884,884,"Lm"),(885,885,"Sk"),(886,886,"Lu"),(887,887,"Ll"),(890,890,"Lm"),(891,893,"Ll"),(894,894,"Po"),
(895,895,"Lu"),(900,901,"Sk"),(902,902,"Lu"),(903,903,"Po"),(904,906,"Lu"),(908,908,"Lu"),(910,911,"Lu"),(912,912,"Ll"),(913,929,"Lu"),(931,939,"Lu"),
(940,974,"Ll"),(975,975,"Lu"),(976,977,"Ll"),(978,980,"Lu"),(981,983,"Ll"),(984,984,"Lu"),(985,985,"Ll"),(986,986,"Lu"),(987,987,"Ll"),(988,988,"Lu"),
(989,989,"Ll"),(990,990,"Lu"),(991,991,"Ll"),(992,992,"Lu"),(993,993,"Ll"),(994,994,"Lu"),(995,995,"Ll"),(996,996,"Lu"),(997,997,"Ll"),(998,998,"Lu"),
(999,999,"Ll"),(1000,1000,"Lu"),(1001,1001,"Ll"),(1002,1002,"Lu"),(1003,1003,"Ll"),(1004,1004,"Lu"),(1005,1005,"Ll"),(1006,1006,"Lu"),
(1007,1011,"Ll"),(1012,1012,"Lu"),(1013,1013,"Ll"),(1014,1014,"Sm"),(1015,1015,"Lu"),(1016,1016,"Ll"),(1017,1018,"Lu"),(1019,1020,"Ll"),
(1021,1071,"Lu"),(1072,1119,"Ll"),(1120,1120,"Lu"),(1121,1121,"Ll"),(1122,1122,"Lu"),(1123,1123,"Ll"),(1124,1124,"Lu"),(1125,1125,"Ll"),
(1126,1126,"Lu"),(1127,1127,"Ll"),(1128,1128,"Lu"),(1129,1129,"Ll"),(1130,1130,"Lu"),(1131,1131,"Ll"),(1132,1132,"Lu"),(1133,1133,"Ll"),
(1134,1134,"Lu"),(1135,1135,"Ll"),(1136,1136,"Lu"),(1137,1137,"Ll"),(1138,1138,"Lu"),(1139,1139,"Ll"),(1140,1140,"Lu"),(1141,1141,"Ll"),
(1142,1142,"Lu"),(1143,1143,"Ll"),(1144,1144,"Lu"),(1145,1145,"Ll"),(1146,1146,"Lu"),(1147,1147,"Ll"),(1148,1148,"Lu"),(1149,1149,"Ll"),
(1150,1150,"Lu"),(1151,1151,"Ll"),(1152,1152,"Lu"),(1153,1153,"Ll"),(1154,1154,"So"),(1155,1159,"Mn"),(1160,1161,"Me"),(1162,1162,"Lu"),
(1163,1163,"Ll"),(1164,1164,"Lu"),(1165,1165,"Ll"),(1166,1166,"Lu"),(1167,1167,"Ll"),(1168,1168,"Lu"),(1169,1169,"Ll"),(1170,1170,"Lu"),
(1171,1171,"Ll"),(1172,1172,"Lu"),(1173,1173,"Ll"),(1174,1174,"Lu"),(1175,1175,"Ll"),(1176,1176,"Lu"),(1177,1177,"Ll"),(1178,1178,"Lu"),
(1179,1179,"Ll"),(1180,1180,"Lu"),(1181,1181,"Ll"),(1182,1182,"Lu"),(1183,1183,"Ll"),(1184,1184,"Lu"),(1185,1185,"Ll"),(1186,1186,"Lu"),
(1187,1187,"Ll"),(1188,1188,"Lu"),(1189,1189,"Ll"),(1190,1190,"Lu"),(1191,1191,"Ll"),(1192,1192,"Lu"),(1193,1193,"Ll"),(1194,1194,"Lu"),
(1195,1195,"Ll"),(1196,1196,"Lu"),(1197,1197,"Ll"),(1198,1198,"Lu"),(1199,1199,"Ll"),(1200,1200,"Lu"),(1201,1201,"Ll"),(1202,1202,"Lu"),
(1203,1203,"Ll"),(1204,1204,"Lu"),(1205,1205,"Ll"),(1206,1206,"Lu"),(1207,1207,"Ll"),(1208,1208,"Lu"),(1209,1209,"Ll"),(1210,1210,"Lu"),
(1211,1211,"Ll"),(1212,1212,"Lu"),(1213,1213,"Ll"),(1214,1214,"Lu"),(1215,1215,"Ll"),(1216,1217,"Lu"),(1218,1218,"Ll"),(1219,1219,"Lu"),
(1220,1220,"Ll"),(1221,1221,"Lu"),(1222,1222,"Ll"),(1223,1223,"Lu"),(1224,1224,"Ll"),(1225,1225,"Lu"),(1226,1226,"Ll"),(1227,1227,"Lu"),
(1228,1228,"Ll"),(1229,1229,"Lu"),(1230,1231,"Ll"),(1232,1232,"Lu"),(1233,1233,"Ll"),(1234,1234,"Lu"),(1235,1235,"Ll"),(1236,1236,"Lu"),
(1237,1237,"Ll"),(1238,1238,"Lu"),(1239,1239,"Ll"),(1240,1240,"Lu"),(1241,1241,"Ll"),(1242,1242,"Lu"),(1243,1243,"Ll"),(1244,1244,"Lu"),
(1245,1245,"Ll"),(1246,1246,"Lu"),(1247,1247,"Ll"),(1248,1248,"Lu"),(1249,1249,"Ll"),(1250,1250,"Lu"),(1251,1251,"Ll"),(1252,1252,"Lu"),
(1253,1253,"Ll"),(1254,1254,"Lu"),(1255,1255,"Ll"),(1256,1256,"Lu"),(1257,1257,"Ll"),(1258,1258,"Lu"),(1259,1259,"Ll"),(1260,1260,"Lu"),
(1261,1261,"Ll"),(1262,1262,"Lu"),(1263,1263,"Ll"),(1264,1264,"Lu"),(1265,1265,"Ll"),(1266,1266,"Lu"),(1267,1267,"Ll"),(1268,1268,"Lu"),
(1269,1269,"Ll"),(1270,1270,"Lu"),(1271,1271,"Ll"),(1272,1272,"Lu"),(1273,1273,"Ll"),(1274,1274,"Lu"),(1275,1275,"Ll"),(1276,1276,"Lu"),
(1277,1277,"Ll"),(1278,1278,"Lu"),(1279,1279,"Ll"),(1280,1280,"Lu"),(1281,1281,"Ll"),(1282,1282,"Lu"),(1283,1283,"Ll"),(1284,1284,"Lu"),
(1285,1285,"Ll"),(1286,1286,"Lu"),(1287,1287,"Ll"),(1288,1288,"Lu"),(1289,1289,"Ll"),(1290,1290,"Lu"),(1291,1291,"Ll"),(1292,1292,"Lu"),
(1293,1293,"Ll"),(1294,1294,"Lu"),(1295,1295,"Ll"),(1296,1296,"Lu"),(1297,1297,"Ll"),(1298,1298,"Lu"),(1299,1299,"Ll"),(1300,1300,"Lu"),
(1301,1301,"Ll"),(1302,1302,"Lu"),(1303,1303,"Ll"),(1304,1304,"Lu"),(1305,1305,"Ll"),(1306,1306,"Lu"),(1307,1307,"Ll"),(1308,1308,"Lu"),
(1309,1309,"Ll"),(1310,1310,"Lu"),(1311,1311,"Ll"),(1312,1312,"Lu"),(1313,1313,"Ll"),(1314,1314,"Lu"),(1315,1315,"Ll"),(1316,1316,"Lu"),
(1317,1317,"Ll"),(1318,1318,"Lu"),(1319,1319,"Ll"),(1320,1320,"Lu"),(1321,1321,"Ll"),(1322,1322,"Lu"),(1323,1323,"Ll"),(1324,1324,"Lu"),
(1325,1325,"Ll"),(1326,1326,"Lu"),(1327,1327,"Ll"),(1329,1366,"Lu"),(1369,1369,"Lm"),(1370,1375,"Po"),(1376,1416,"Ll"),(1417,1417,"Po"),
(1418,1418,"Pd"),(1421,1422,"So"),(1423,1423,"Sc"),(1425,1469,"Mn"),(1470,1470,"Pd"),(1471,1471,"Mn"),(1472,1472,"Po"),(1473,1474,"Mn"),
(1475,1475,"Po"),(1476,1477,"Mn"),(1478,1478,"Po"),(1479,1479,"Mn"),(1488,1514,"Lo"),(1519,1522,"Lo"),(1523,1524,"Po"),(1536,1541,"Cf"),
(1542,1544,"Sm"),(1545,1546,"Po"),(1547,1547,"Sc"),(1548,1549,"Po"),(1550,1551,"So"),(1552,1562,"Mn"),(1563,1563,"Po"),(1564,1564,"Cf"),
(1565,1567,"Po"),(1568,1599,"Lo"),(1600,1600,"Lm"),(1601,1610,"Lo"),(1611,1631,"Mn"),(1632,1641,"Nd"),(1642,1645,"Po"),(1646,1647,"Lo"),
(1648,1648,"Mn"),(1649,1747,"Lo"),(1748,1748,"Po"),(1749,1749,"Lo"),(1750,1756,"Mn"),(1757,1757,"Cf"),(1758,1758,"So"),(1759,1764,"Mn"),
(1765,1766,"Lm"),(1767,1768,"Mn"),(1769,1769,"So"),(1770,1773,"Mn"),(1774,1775,"Lo"),(1776,1785,"Nd"),(1786,1788,"Lo"),(1789,1790,"So"),
(1791,1791,"Lo"),(1792,1805,"Po"),(1807,1807,"Cf"),(1808,1808,"Lo"),(1809,1809,"Mn"),(1810,1839,"Lo"),(1840,1866,"Mn"),(1869,1957,"Lo"),
(1958,1968,"Mn"),(1969,1969,"Lo"),(1984,1993,"Nd"),(1994,2026,"Lo"),(2027,2035,"Mn"),(2036,2037,"Lm"),(2038,2038,"So"),(2039,2041,"Po"),
(2042,2042,"Lm"),(2045,2045,"Mn"),(2046,2047,"Sc"),(2048,2069,"Lo"),(2070,2073,"Mn"),(2074,2074,"Lm"),(2075,2083,"Mn"),(2084,2084,"Lm"),
(2085,2087,"Mn"),(2088,2088,"Lm"),(2089,2093,"Mn"),(2096,2110,"Po"),(2112,2136,"Lo"),(2137,2139,"Mn"),(2142,2142,"Po"),(2144,2154,"Lo"),
(2160,2183,"Lo"),(2184,2184,"Sk"),(2185,2190,"Lo"),(2192,2193,"Cf"),(2200,2207,"Mn"),(2208,2248,"Lo"),(2249,2249,"Lm"),(2250,2273,"Mn"),
(2274,2274,"Cf"),(2275,2306,"Mn"),(2307,2307,"Mc"),(2308,2361,"Lo"),(2362,2362,"Mn"),(2363,2363,"Mc"),(2364,2364,"Mn"),(2365,2365,"Lo"),
(2366,2368,"Mc"),(2369,2376,"Mn"),(2377,2380,"Mc"),(2381,2381,"Mn"),(2382,2383,"Mc"),(2384,2384,"Lo"),(2385,2391,"Mn"),(2392,2401,"Lo"),
(2402,2403,"Mn"),(2404,2405,"Po"),(2406,2415,"Nd"),(2416,2416,"Po"),(2417,2417,"Lm"),(2418,2432,"Lo"),(2433,2433,"Mn"),(2434,2435,"Mc"),
(2437,2444,"Lo"),(2447,2448,"Lo"),(2451,2472,"Lo"),(2474,2480,"Lo"),(2482,2482,"Lo"),(2486,2489,"Lo"),(2492,2492,"Mn"),(2493,2493,"Lo"),
(2494,2496,"Mc"),(2497,2500,"Mn"),(2503,2504,"Mc"),(2507,2508,"Mc"),(2509,2509,"Mn"),(2510,2510,"Lo"),(2519,2519,"Mc"),(2524,2525,"Lo"),
(2527,2529,"Lo"),(2530,2531,"Mn"),(2534,2543,"Nd"),(2544,2545,"Lo"),(2546,2547,"Sc"),(2548,2553,"No"),(2554,2554,"So"),(2555,2555,"Sc"),
(2556,2556,"Lo"),(2557,2557,"Po"),(2558,2558,"Mn"),(2561,2562,"Mn"),(2563,2563,"Mc"),(2565,2570,"Lo"),(2575,2576,"Lo"),(2579,2600,"Lo"),
(2602,2608,"Lo"),(2610,2611,"Lo"),(2613,2614,"Lo"),(2616,2617,"Lo"),(2620,2620,"Mn"),(2622,2624,"Mc"),(2625,2626,"Mn"),(2631,2632,"Mn"),
(2635,2637,"Mn"),(2641,2641,"Mn"),(2649,2652,"Lo"),(2654,2654,"Lo"),(2662,2671,"Nd"),(2672,2673,"Mn"),(2674,2676,"Lo"),(2677,2677,"Mn"),
(2678,2678,"Po"),(2689,2690,"Mn"),(2691,2691,"Mc"),(2693,2701,"Lo"),(2703,2705,"Lo"),(2707,2728,"Lo"),(2730,2736,"Lo"),(2738,2739,"Lo"),
(2741,2745,"Lo"),(2748,2748,"Mn"),(2749,2749,"Lo"),(2750,2752,"Mc"),(2753,2757,"Mn"),(2759,2760,"Mn"),(2761,2761,"Mc"),(2763,2764,"Mc"),
(2765,2765,"Mn"),(2768,2768,"Lo"),(2784,2785,"Lo"),(2786,2787,"Mn"),(2790,2799,"Nd"),(2800,2800,"Po"),(2801,2801,"Sc"),(2809,2809,"Lo"),
(2810,2815,"Mn"),(2817,2817,"Mn"),(2818,2819,"Mc"),(2821,2828,"Lo"),(2831,2832,"Lo"),(2835,2856,"Lo"),(2858,2864,"Lo"),(2866,2867,"Lo"),
(2869,2873,"Lo"),(2876,2876,"Mn"),(2877,2877,"Lo"),(2878,2878,"Mc"),(2879,2879,"Mn"),(2880,2880,"Mc"),(2881,2884,"Mn"),(2887,2888,"Mc"),
(2891,2892,"Mc"),(2893,2893,"Mn"),(2901,2902,"Mn"),(2903,2903,"Mc"),(2908,2909,"Lo"),(2911,2913,"Lo"),(2914,2915,"Mn"),(2918,2927,"Nd"),
(2928,2928,"So"),(2929,2929,"Lo"),(2930,2935,"No"),(2946,2946,"Mn"),(2947,2947,"Lo"),(2949,2954,"Lo"),(2958,2960,"Lo"),(2962,2965,"Lo"),
(2969,2970,"Lo"),(2972,2972,"Lo"),(2974,2975,"Lo"),(2979,2980,"Lo"),(2984,2986,"Lo"),(2990,3001,"Lo"),(3006,3007,"Mc"),(3008,3008,"Mn"),
(3009,3010,"Mc"),(3014,3016,"Mc"),(3018,3020,"Mc"),(3021,3021,"Mn"),(3024,3024,"Lo"),(3031,3031,"Mc"),(3046,3055,"Nd"),(3056,3058,"No"),
(3059,3064,"So"),(3065,3065,"Sc"),(3066,3066,"So"),(3072,3072,"Mn"),(3073,3075,"Mc"),(3076,3076,"Mn"),(3077,3084,"Lo"),(3086,3088,"Lo"),
(3090,3112,"Lo"),(3114,3129,"Lo"),(3132,3132,"Mn"),(3133,3133,"Lo"),(3134,3136,"Mn"),(3137,3140,"Mc"),(3142,3144,"Mn"),(3146,3149,"Mn"),
(3157,3158,"Mn"),(3160,3162,"Lo"),(3165,3165,"Lo"),(3168,3169,"Lo"),(3170,3171,"Mn"),(3174,3183,"Nd"),(3191,3191,"Po"),(3192,3198,"No"),
(3199,3199,"So"),(3200,3200,"Lo"),(3201,3201,"Mn"),(3202,3203,"Mc"),(3204,3204,"Po"),(3205,3212,"Lo"),(3214,3216,"Lo"),(3218,3240,"Lo"),
(3242,3251,"Lo"),(3253,3257,"Lo"),(3260,3260,"Mn"),(3261,3261,"Lo"),(3262,3262,"Mc"),(3263,3263,"Mn"),(3264,3268,"Mc"),(3270,3270,"Mn"),
(3271,3272,"Mc"),(3274,3275,"Mc"),(3276,3277,"Mn"),(3285,3286,"Mc"),(3293,3294,"Lo"),(3296,3297,"Lo"),(3298,3299,"Mn"),(3302,3311,"Nd"),
(3313,3314,"Lo"),(3315,3315,"Mc"),(3328,3329,"Mn"),(3330,3331,"Mc"),(3332,3340,"Lo"),(3342,3344,"Lo"),(3346,3386,"Lo"),(3387,3388,"Mn"),
(3389,3389,"Lo"),(3390,3392,"Mc"),(3393,3396,"Mn"),(3398,3400,"Mc"),(3402,3404,"Mc"),(3405,3405,"Mn"),(3406,3406,"Lo"),(3407,3407,"So"),
(3412,3414,"Lo"),(3415,3415,"Mc"),(3416,3422,"No"),(3423,3425,"Lo"),(3426,3427,"Mn"),(3430,3439,"Nd"),(3440,3448,"No"),(3449,3449,"So"),
(3450,3455,"Lo"),(3457,3457,"Mn"),(3458,3459,"Mc"),(3461,3478,"Lo"),(3482,3505,"Lo"),(3507,3515,"Lo"),(3517,3517,"Lo"),(3520,3526,"Lo"),
(3530,3530,"Mn"),(3535,3537,"Mc"),(3538,3540,"Mn"),(3542,3542,"Mn"),(3544,3551,"Mc"),(3558,3567,"Nd"),(3570,3571,"Mc"),(3572,3572,"Po"),
(3585,3632,"Lo"),(3633,3633,"Mn"),(3634,3635,"Lo"),(3636,3642,"Mn"),(3647,3647,"Sc"),(3648,3653,"Lo"),(3654,3654,"Lm"),(3655,3662,"Mn"),
(3663,3663,"Po"),(3664,3673,"Nd"),(3674,3675,"Po"),(3713,3714,"Lo"),(3716,3716,"Lo"),(3718,3722,"Lo"),(3724,3747,"Lo"),(3749,3749,"Lo"),
(3751,3760,"Lo"),(3761,3761,"Mn"),(3762,3763,"Lo"),(3764,3772,"Mn"),(3773,3773,"Lo"),(3776,3780,"Lo"),(3782,3782,"Lm"),(3784,3790,"Mn"),
(3792,3801,"Nd"),(3804,3807,"Lo"),(3840,3840,"Lo"),(3841,3843,"So"),(3844,3858,"Po"),(3859,3859,"So"),(3860,3860,"Po"),(3861,3863,"So"),
(3864,3865,"Mn"),(3866,3871,"So"),(3872,3881,"Nd"),(3882,3891,"No"),(3892,3892,"So"),(3893,3893,"Mn"),(3894,3894,"So"),(3895,3895,"Mn"),
(3896,3896,"So"),(3897,3897,"Mn"),(3898,3898,"Ps"),(3899,3899,"Pe"),(3900,3900,"Ps"),(3901,3901,"Pe"),(3902,3903,"Mc"),(3904,3911,"Lo"),
(3913,3948,"Lo"),(3953,3966,"Mn"),(3967,3967,"Mc"),(3968,3972,"Mn"),(3973,3973,"Po"),(3974,3975,"Mn"),(3976,3980,"Lo"),(3981,3991,"Mn"),
(3993,4028,"Mn"),(4030,4037,"So"),(4038,4038,"Mn"),(4039,4044,"So"),(4046,4047,"So"),(4048,4052,"Po"),(4053,4056,"So"),(4057,4058,"Po"),
(4096,4138,"Lo"),(4139,4140,"Mc"),(4141,4144,"Mn"),(4145,4145,"Mc"),(4146,4151,"Mn"),(4152,4152,"Mc"),(4153,4154,"Mn"),(4155,4156,"Mc"),
(4157,4158,"Mn"),(4159,4159,"Lo"),(4160,4169,"Nd"),(4170,4175,"Po"),(4176,4181,"Lo"),(4182,4183,"Mc"),(4184,4185,"Mn"),(4186,4189,"Lo"),
(4190,4192,"Mn"),(4193,4193,"Lo"),(4194,4196,"Mc"),(4197,4198,"Lo"),(4199,4205,"Mc"),(4206,4208,"Lo"),(4209,4212,"Mn"),(4213,4225,"Lo"),
(4226,4226,"Mn"),(4227,4228,"Mc"),(4229,4230,"Mn"),(4231,4236,"Mc"),(4237,4237,"Mn"),(4238,4238,"Lo"),(4239,4239,"Mc"),(4240,4249,"Nd"),
(4250,4252,"Mc"),(4253,4253,"Mn"),(4254,4255,"So"),(4256,4293,"Lu"),(4295,4295,"Lu"),(4301,4301,"Lu"),(4304,4346,"Ll"),(4347,4347,"Po"),
(4348,4348,"Lm"),(4349,4351,"Ll"),(4352,4680,"Lo"),(4682,4685,"Lo"),(4688,4694,"Lo"),(4696,4696,"Lo"),(4698,4701,"Lo"),(4704,4744,"Lo"),
(4746,4749,"Lo"),(4752,4784,"Lo"),(4786,4789,"Lo"),(4792,4798,"Lo"),(4800,4800,"Lo"),(4802,4805,"Lo"),(4808,4822,"Lo"),(4824,4880,"Lo"),
(4882,4885,"Lo"),(4888,4954,"Lo"),(4957,4959,"Mn"),(4960,4968,"Po"),(4969,4988,"No"),(4992,5007,"Lo"),(5008,5017,"So"),(5024,5109,"Lu"),
(5112,5117,"Ll"),(5120,5120,"Pd"),(5121,5740,"Lo"),(5741,5741,"So"),(5742,5742,"Po"),(5743,5759,"Lo"),(5760,5760,"Zs"),(5761,5786,"Lo"),
(5787,5787,"Ps"),(5788,5788,"Pe"),(5792,5866,"Lo"),(5867,5869,"Po"),(5870,5872,"Nl"),(5873,5880,"Lo"),(5888,5905,"Lo"),(5906,5908,"Mn"),
(5909,5909,"Mc"),(5919,5937,"Lo"),(5938,5939,"Mn"),(5940,5940,"Mc"),(5941,5942,"Po"),(5952,5969,"Lo"),(5970,5971,"Mn"),(5984,5996,"Lo"),
(5998,6000,"Lo"),(6002,6003,"Mn"),(6016,6067,"Lo"),(6068,6069,"Mn"),(6070,6070,"Mc"),(6071,6077,"Mn"),(6078,6085,"Mc"),(6086,6086,"Mn"),
(6087,6088,"Mc"),(6089,6099,"Mn"),(6100,6102,"Po"),(6103,6103,"Lm"),(6104,6106,"Po"),(6107,6107,"Sc"),(6108,6108,"Lo"),(6109,6109,"Mn"),
(6112,6121,"Nd"),(6128,6137,"No"),(6144,6149,"Po"),(6150,6150,"Pd"),(6151,6154,"Po"),(6155,6157,"Mn"),(6158,6158,"Cf"),(6159,6159,"Mn"),
(6160,6169,"Nd"),(6176,6210,"Lo"),(6211,6211,"Lm"),(6212,6264,"Lo"),(6272,6276,"Lo"),(6277,6278,"Mn"),(6279,6312,"Lo"),(6313,6313,"Mn"),
(6314,6314,"Lo"),(6320,6389,"Lo"),(6400,6430,"Lo"),(6432,6434,"Mn"),(6435,6438,"Mc"),(6439,6440,"Mn"),(6441,6443,"Mc"),(6448,6449,"Mc"),
(6450,6450,"Mn"),(6451,6456,"Mc"),(6457,6459,"Mn"),(6464,6464,"So"),(6468,6469,"Po"),(6470,6479,"Nd"),(6480,6509,"Lo"),(6512,6516,"Lo"),
(6528,6571,"Lo"),(6576,6601,"Lo"),(6608,6617,"Nd"),(6618,6618,"No"),(6622,6655,"So"),(6656,6678,"Lo"),(6679,6680,"Mn"),(6681,6682,"Mc"),
(6683,6683,"Mn"),(6686,6687,"Po"),(6688,6740,"Lo"),(6741,6741,"Mc"),(6742,6742,"Mn"),(6743,6743,"Mc"),(6744,6750,"Mn"),(6752,6752,"Mn"),
(6753,6753,"Mc"),(6754,6754,"Mn"),(6755,6756,"Mc"),(6757,6764,"Mn"),(6765,6770,"Mc"),(6771,6780,"Mn"),(6783,6783,"Mn"),(6784,6793,"Nd"),
(6800,6809,"Nd"),(6816,6822,"Po"),(6823,6823,"Lm"),(6824,6829,"Po"),(6832,6845,"Mn"),(6846,6846,"Me"),(6847,6862,"Mn"),(6912,6915,"Mn"),
(6916,6916,"Mc"),(6917,6963,"Lo"),(6964,6964,"Mn"),(6965,6965,"Mc"),(6966,6970,"Mn"),(6971,6971,"Mc"),(6972,6972,"Mn"),(6973,6977,"Mc"),
(6978,6978,"Mn"),(6979,6980,"Mc"),(6981,6988,"Lo"),(6992,7001,"Nd"),(7002,7008,"Po"),(7009,7018,"So"),(7019,7027,"Mn"),(7028,7036,"So"),
(7037,7038,"Po"),(7040,7041,"Mn"),(7042,7042,"Mc"),(7043,7072,"Lo"),(7073,7073,"Mc"),(7074,7077,"Mn"),(7078,7079,"Mc"),(7080,7081,"Mn"),
(7082,7082,"Mc"),(7083,7085,"Mn"),(7086,7087,"Lo"),(7088,7097,"Nd"),(7098,7141,"Lo"),(7142,7142,"Mn"),(7143,7143,"Mc"),(7144,7145,"Mn"),
(7146,7148,"Mc"),(7149,7149,"Mn"),(7150,7150,"Mc"),(7151,7153,"Mn"),(7154,7155,"Mc"),(7164,7167,"Po"),(7168,7203,"Lo"),(7204,7211,"Mc"),
(7212,7219,"Mn"),(7220,7221,"Mc"),(7222,7223,"Mn"),(7227,7231,"Po"),(7232,7241,"Nd"),(7245,7247,"Lo"),(7248,7257,"Nd"),(7258,7287,"Lo"),
(7288,7293,"Lm"),(7294,7295,"Po"),(7296,7304,"Ll"),(7312,7354,"Lu"),(7357,7359,"Lu"),(7360,7367,"Po"),(7376,7378,"Mn"),(7379,7379,"Po"),
(7380,7392,"Mn"),(7393,7393,"Mc"),(7394,7400,"Mn"),(7401,7404,"Lo"),(7405,7405,"Mn"),(7406,7411,"Lo"),(7412,7412,"Mn"),(7413,7414,"Lo"),
(7415,7415,"Mc"),(7416,7417,"Mn"),(7418,7418,"Lo"),(7424,7467,"Ll"),(7468,7530,"Lm"),(7531,7543,"Ll"),(7544,7544,"Lm"),(7545,7578,"Ll"),
(7579,7615,"Lm"),(7616,7679,"Mn"),(7680,7680,"Lu"),(7681,7681,"Ll"),(7682,7682,"Lu"),(7683,7683,"Ll"),(7684,7684,"Lu"),(7685,7685,"Ll"),
(7686,7686,"Lu"),(7687,7687,"Ll"),(7688,7688,"Lu"),(7689,7689,"Ll"),(7690,7690,"Lu"),(7691,7691,"Ll"),(7692,7692,"Lu"),(7693,7693,"Ll"),
(7694,7694,"Lu"),(7695,7695,"Ll"),(7696,7696,"Lu"),(7697,7697,"Ll"),(7698,7698,"Lu"),(7699,7699,"Ll"),(7700,7700,"Lu"),(7701,7701,"Ll"),
(7702,7702,"Lu"),(7703,7703,"Ll"),(7704,7704,"Lu"),(7705,7705,"Ll"),(7706,7706,"Lu"),(7707,7707,"Ll"),(7708,7708,"Lu"),(7709,7709,"Ll"),
(7710,7710,"Lu"),(7711,7711,"Ll"),(7712,7712,"Lu"),(7713,7713,"Ll"),(7714,7714,"Lu"),(7715,7715,"Ll"),(7716,7716,"Lu"),(7717,7717,"Ll"),
(7718,7718,"Lu"),(7719,7719,"Ll"),(7720,7720,"Lu"),(7721,7721,"Ll"),(7722,7722,"Lu"),(7723,7723,"Ll"),(7724,7724,"Lu"),(7725,7725,"Ll"),
(7726,7726,"Lu"),(7727,7727,"Ll"),(7728,7728,"Lu"),(7729,7729,"Ll"),(7730,7730,"Lu"),(7731,7731,"Ll"),(7732,7732,"Lu"),(7733,7733,"Ll"),
(7734,7734,"Lu"),(7735,7735,"Ll"),(7736,7736,"Lu"),(7737,7737,"Ll"),(7738,7738,"Lu"),(7739,7739,"Ll"),(7740,7740,"Lu"),(7741,7741,"Ll"),
(7742,7742,"Lu"),(7743,7743,"Ll"),(7744,7744,"Lu"),(7745,7745,"Ll"),(7746,7746,"Lu"),(7747,7747,"Ll"),(7748,7748,"Lu"),(7749,7749,"Ll"),
(7750,7750,"Lu"),(7751,7751,"Ll"),(7752,7752,"Lu"),(7753,7753,"Ll"),(7754,7754,"Lu"),(7755,7755,"Ll"),(7756,7756,"Lu"),(7757,7757,"Ll"),
(7758,7758,"Lu"),(7759,7759,"Ll"),(7760,7760,"Lu"),(7761,7761,"Ll"),(7762,7762,"Lu"),(7763,7763,"Ll"),(7764,7764,"Lu"),(7765,7765,"Ll"),
(7766,7766,"Lu"),(7767,7767,"Ll"),(7768,7768,"Lu"),(7769,7769,"Ll"),(7770,7770,"Lu"),(7771,7771,"Ll"),(7772,7772,"Lu"),(7773,7773,"Ll"),
(7774,7774,"Lu"),(7775,7775,"Ll"),(7776,7776,"Lu"),(7777,7777,"Ll"),(7778,7778,"Lu"),(7779,7779,"Ll"),(7780,7780,"Lu"),(7781,7781,"Ll"),
(7782,7782,"Lu"),(7783,7783,"Ll"),(7784,7784,"Lu"),(7785,7785,"Ll"),(7786,7786,"Lu"),(7787,7787,"Ll"),(7788,7788,"Lu"),(7789,7789,"Ll"),
(7790,7790,"Lu"),(7791,7791,"Ll"),(7792,7792,"Lu"),(7793,7793,"Ll"),(7794,7794,"Lu"),(7795,7795,"Ll"),(7796,7796,"Lu"),(7797,7797,"Ll"),
(7798,7798,"Lu"),(7799,7799,"Ll"),(7800,7800,"Lu"),(7801,7801,"Ll"),(7802,7802,"Lu"),(7803,7803,"Ll"),(7804,7804,"Lu"),(7805,7805,"Ll"),
(7806,7806,"Lu"),(7807,7807,"Ll"),(7808,7808,"Lu"),(7809,7809,"Ll"),(7810,7810,"Lu"),(7811,7811,"Ll"),(7812,7812,"Lu"),(7813,7813,"Ll"),
(7814,7814,"Lu"),(7815,7815,"Ll"),(7816,7816,"Lu"),(7817,7817,"Ll"),(7818,7818,"Lu"),(7819,7819,"Ll"),(7820,7820,"Lu"),(7821,7821,"Ll"),
(7822,7822,"Lu"),(7823,7823,"Ll"),(7824,7824,"Lu"),(7825,7825,"Ll"),(7826,7826,"Lu"),(7827,7827,"Ll"),(7828,7828,"Lu"),(7829,7837,"Ll"),
(7838,7838,"Lu"),(7839,7839,"Ll"),(7840,7840,"Lu"),(7841,7841,"Ll"),(7842,7842,"Lu"),(7843,7843,"Ll"),(7844,7844,"Lu"),(7845,7845,"Ll"),
(7846,7846,"Lu"),(7847,7847,"Ll"),(7848,7848,"Lu"),(7849,7849,"Ll"),(7850,7850,"Lu"),(7851,7851,"Ll"),(7852,7852,"Lu"),(7853,7853,"Ll"),
(7854,7854,"Lu"),(7855,7855,"Ll"),(7856,7856,"Lu"),(7857,7857,"Ll"),(7858,7858,"Lu"),(7859,7859,"Ll"),(7860,7860,"Lu"),(7861,7861,"Ll"),
(7862,7862,"Lu"),(7863,7863,"Ll"),(7864,7864,"Lu"),(7865,7865,"Ll"),(7866,7866,"Lu"),(7867,7867,"Ll"),(7868,7868,"Lu"),(7869,7869,"Ll"),
(7870,7870,"Lu"),(7871,7871,"Ll"),(7872,7872,"Lu"),(7873,7873,"Ll"),(7874,7874,"Lu"),(7875,7875,"Ll"),(7876,7876,"Lu"),(7877,7877,"Ll"),
(7878,7878,"Lu"),(7879,7879,"Ll"),(7880,7880,"Lu"),(7881,7881,"Ll"),(7882,7882,"Lu"),(7883,7883,"Ll"),(7884,7884,"Lu"),(7885,7885,"Ll"),
(7886,7886,"Lu"),(7887,7887,"Ll"),(7888,7888,"Lu"),(7889,7889,"Ll"),(7890,7890,"Lu"),(7891,7891,"Ll"),(7892,7892,"Lu"),(7893,7893,"Ll"),
(7894,7894,"Lu"),(7895,7895,"Ll"),(7896,7896,"Lu"),(7897,7897,"Ll"),(7898,7898,"Lu"),(7899,7899,"Ll"),(7900,7900,"Lu"),(7901,7901,"Ll"),
(7902,7902,"Lu"),(7903,7903,"Ll"),(7904,7904,"Lu"),(7905,7905,"Ll"),(7906,7906,"Lu"),(7907,7907,"Ll"),(7908,7908,"Lu"),(7909,7909,"Ll"),
(7910,7910,"Lu"),(7911,7911,"Ll"),(7912,7912,"Lu"),(7913,7913,"Ll"),(7914,7914,"Lu"),(7915,7915,"Ll"),(7916,7916,"Lu"),(7917,7917,"Ll"),
(7918,7918,"Lu"),(7919,7919,"Ll"),(7920,7920,"Lu"),(7921,7921,"Ll"),(7922,7922,"Lu"),(7923,7923,"Ll"),(7924,7924,"Lu"),(7925,7925,"Ll"),
(7926,7926,"Lu"),(7927,7927,"Ll"),(7928,7928,"Lu"),(7929,7929,"Ll"),(7930,7930,"Lu"),(7931,7931,"Ll"),(7932,7932,"Lu"),(7933,7933,"Ll"),
(7934,7934,"Lu"),(7935,7943,"Ll"),(7944,7951,"Lu"),(7952,7957,"Ll"),(7960,7965,"Lu"),(7968,7975,"Ll"),(7976,7983,"Lu"),(7984,7991,"Ll"),
(7992,7999,"Lu"),(8000,8005,"Ll"),(8008,8013,"Lu"),(8016,8023,"Ll"),(8025,8025,"Lu"),(8027,8027,"Lu"),(8029,8029,"Lu"),(8031,8031,"Lu"),
(8032,8039,"Ll"),(8040,8047,"Lu"),(8048,8061,"Ll"),(8064,8071,"Ll"),(8072,8079,"Lt"),(8080,8087,"Ll"),(8088,8095,"Lt"),(8096,8103,"Ll"),
(8104,8111,"Lt"),(8112,8116,"Ll"),(8118,8119,"Ll"),(8120,8123,"Lu"),(8124,8124,"Lt"),(8125,8125,"Sk"),(8126,8126,"Ll"),(8127,8129,"Sk"),
(8130,8132,"Ll"),(8134,8135,"Ll"),(8136,8139,"Lu"),(8140,8140,"Lt"),(8141,8143,"Sk"),(8144,8147,"Ll"),(8150,8151,"Ll"),(8152,8155,"Lu"),
(8157,8159,"Sk"),(8160,8167,"Ll"),(8168,8172,"Lu"),(8173,8175,"Sk"),(8178,8180,"Ll"),(8182,8183,"Ll"),(8184,8187,"Lu"),(8188,8188,"Lt"),
(8189,8190,"Sk"),(8192,8202,"Zs"),(8203,8207,"Cf"),(8208,8213,"Pd"),(8214,8215,"Po"),(8216,8216,"Pi"),(8217,8217,"Pf"),(8218,8218,"Ps"),
(8219,8220,"Pi"),(8221,8221,"Pf"),(8222,8222,"Ps"),(8223,8223,"Pi"),(8224,8231,"Po"),(8232,8232,"Zl"),(8233,8233,"Zp"),(8234,8238,"Cf"),
(8239,8239,"Zs"),(8240,8248,"Po"),(8249,8249,"Pi"),(8250,8250,"Pf"),(8251,8254,"Po"),(8255,8256,"Pc"),(8257,8259,"Po"),(8260,8260,"Sm"),
(8261,8261,"Ps"),(8262,8262,"Pe"),(8263,8273,"Po"),(8274,8274,"Sm"),(8275,8275,"Po"),(8276,8276,"Pc"),(8277,8286,"Po"),(8287,8287,"Zs"),
(8288,8292,"Cf"),(8294,8303,"Cf"),(8304,8304,"No"),(8305,8305,"Lm"),(8308,8313,"No"),(8314,8316,"Sm"),(8317,8317,"Ps"),(8318,8318,"Pe"),
(8319,8319,"Lm"),(8320,8329,"No"),(8330,8332,"Sm"),(8333,8333,"Ps"),(8334,8334,"Pe"),(8336,8348,"Lm"),(8352,8384,"Sc"),(8400,8412,"Mn"),
(8413,8416,"Me"),(8417,8417,"Mn"),(8418,8420,"Me"),(8421,8432,"Mn"),(8448,8449,"So"),(8450,8450,"Lu"),(8451,8454,"So"),(8455,8455,"Lu"),
(8456,8457,"So"),(8458,8458,"Ll"),(8459,8461,"Lu"),(8462,8463,"Ll"),(8464,8466,"Lu"),(8467,8467,"Ll"),(8468,8468,"So"),(8469,8469,"Lu"),
(8470,8471,"So"),(8472,8472,"Sm"),(8473,8477,"Lu"),(8478,8483,"So"),(8484,8484,"Lu"),(8485,8485,"So"),(8486,8486,"Lu"),(8487,8487,"So"),
(8488,8488,"Lu"),(8489,8489,"So"),(8490,8493,"Lu"),(8494,8494,"So"),(8495,8495,"Ll"),(8496,8499,"Lu"),(8500,8500,"Ll"),(8501,8504,"Lo"),
(8505,8505,"Ll"),(8506,8507,"So"),(8508,8509,"Ll"),(8510,8511,"Lu"),(8512,8516,"Sm"),(8517,8517,"Lu"),(8518,8521,"Ll"),(8522,8522,"So"),
(8523,8523,"Sm"),(8524,8525,"So"),(8526,8526,"Ll"),(8527,8527,"So"),(8528,8543,"No"),(8544,8578,"Nl"),(8579,8579,"Lu"),(8580,8580,"Ll"),
(8581,8584,"Nl"),(8585,8585,"No"),(8586,8587,"So"),(8592,8596,"Sm"),(8597,8601,"So"),(8602,8603,"Sm"),(8604,8607,"So"),(8608,8608,"Sm"),
(8609,8610,"So"),(8611,8611,"Sm"),(8612,8613,"So"),(8614,8614,"Sm"),(8615,8621,"So"),(8622,8622,"Sm"),(8623,8653,"So"),(8654,8655,"Sm"),
(8656,8657,"So"),(8658,8658,"Sm"),(8659,8659,"So"),(8660,8660,"Sm"),(8661,8691,"So"),(8692,8959,"Sm"),(8960,8967,"So"),(8968,8968,"Ps"),
(8969,8969,"Pe"),(8970,8970,"Ps"),(8971,8971,"Pe"),(8972,8991,"So"),(8992,8993,"Sm"),(8994,9000,"So"),(9001,9001,"Ps"),(9002,9002,"Pe"),
(9003,9083,"So"),(9084,9084,"Sm"),(9085,9114,"So"),(9115,9139,"Sm"),(9140,9179,"So"),(9180,9185,"Sm"),(9186,9254,"So"),(9280,9290,"So"),
(9312,9371,"No"),(9372,9449,"So"),(9450,9471,"No"),(9472,9654,"So"),(9655,9655,"Sm"),(9656,9664,"So"),(9665,9665,"Sm"),(9666,9719,"So"),
(9720,9727,"Sm"),(9728,9838,"So"),(9839,9839,"Sm"),(9840,10087,"So"),(10088,10088,"Ps"),(10089,10089,"Pe"),(10090,10090,"Ps"),(10091,10091,"Pe"),
(10092,10092,"Ps"),(10093,10093,"Pe"),(10094,10094,"Ps"),(10095,10095,"Pe"),(10096,10096,"Ps"),(10097,10097,"Pe"),(10098,10098,"Ps"),
(10099,10099,"Pe"),(10100,10100,"Ps"),(10101,10101,"Pe"),(10102,10131,"No"),(10132,10175,"So"),(10176,10180,"Sm"),(10181,10181,"Ps"),
(10182,10182,"Pe"),(10183,10213,"Sm"),(10214,10214,"Ps"),(10215,10215,"Pe"),(10216,10216,"Ps"),(10217,10217,"Pe"),(10218,10218,"Ps"),
(10219,10219,"Pe"),(10220,10220,"Ps"),(10221,10221,"Pe"),(10222,10222,"Ps"),(10223,10223,"Pe"),(10224,10239,"Sm"),(10240,10495,"So"),
(10496,10626,"Sm"),(10627,10627,"Ps"),(10628,10628,"Pe"),(10629,10629,"Ps"),(10630,10630,"Pe"),(10631,10631,"Ps"),(10632,10632,"Pe"),
(10633,10633,"Ps"),(10634,10634,"Pe"),(10635,10635,"Ps"),(10636,10636,"Pe"),(10637,10637,"Ps"),(10638,10638,"Pe"),(10639,10639,"Ps"),
(10640,10640,"Pe"),(10641,10641,"Ps"),(10642,10642,"Pe"),(10643,10643,"Ps"),(10644,10644,"Pe"),(10645,10645,"Ps"),(10646,10646,"Pe"),
(10647,10647,"Ps"),(10648,10648,"Pe"),(10649,10711,"Sm"),(10712,10712,"Ps"),(10713,10713,"Pe"),(10714,10714,"Ps"),(10715,10715,"Pe"),
(10716,10747,"Sm"),(10748,10748,"Ps"),(10749,10749,"Pe"),(10750,11007,"Sm"),(11008,11055,"So"),(11056,11076,"Sm"),(11077,11078,"So"),
(11079,11084,"Sm"),(11085,11123,"So"),(11126,11157,"So"),(11159,11263,"So"),(11264,11311,"Lu"),(11312,11359,"Ll"),(11360,11360,"Lu"),
(11361,11361,"Ll"),(11362,11364,"Lu"),(11365,11366,"Ll"),(11367,11367,"Lu"),(11368,11368,"Ll"),(11369,11369,"Lu"),(11370,11370,"Ll"),
(11371,11371,"Lu"),(11372,11372,"Ll"),(11373,11376,"Lu"),(11377,11377,"Ll"),(11378,11378,"Lu"),(11379,11380,"Ll"),(11381,11381,"Lu"),
(11382,11387,"Ll"),(11388,11389,"Lm"),(11390,11392,"Lu"),(11393,11393,"Ll"),(11394,11394,"Lu"),(11395,11395,"Ll"),(11396,11396,"Lu"),
(11397,11397,"Ll"),(11398,11398,"Lu"),(11399,11399,"Ll"),(11400,11400,"Lu"),(11401,11401,"Ll"),(11402,11402,"Lu"),(11403,11403,"Ll"),
(11404,11404,"Lu"),(11405,11405,"Ll"),(11406,11406,"Lu"),(11407,11407,"Ll"),(11408,11408,"Lu"),(11409,11409,"Ll"),(11410,11410,"Lu"),
(11411,11411,"Ll"),(11412,11412,"Lu"),(11413,11413,"Ll"),(11414,11414,"Lu"),(11415,11415,"Ll"),(11416,11416,"Lu"),(11417,11417,"Ll"),
(11418,11418,"Lu"),(11419,11419,"Ll"),(11420,11420,"Lu"),(11421,11421,"Ll"),(11422,11422,"Lu"),(11423,11423,"Ll"),(11424,11424,"Lu"),
(11425,11425,"Ll"),(11426,11426,"Lu"),(11427,11427,"Ll"),(11428,11428,"Lu"),(11429,11429,"Ll"),(11430,11430,"Lu"),(11431,11431,"Ll"),
(11432,11432,"Lu"),(11433,11433,"Ll"),(11434,11434,"Lu"),(11435,11435,"Ll"),(11436,11436,"Lu"),(11437,11437,"Ll"),(11438,11438,"Lu"),
(11439,11439,"Ll"),(11440,11440,"Lu"),(11441,11441,"Ll"),(11442,11442,"Lu"),(11443,11443,"Ll"),(11444,11444,"Lu"),(11445,11445,"Ll"),
(11446,11446,"Lu"),(11447,11447,"Ll"),(11448,11448,"Lu"),(11449,11449,"Ll"),(11450,11450,"Lu"),(11451,11451,"Ll"),(11452,11452,"Lu"),
(11453,11453,"Ll"),(11454,11454,"Lu"),(11455,11455,"Ll"),(11456,11456,"Lu"),(11457,11457,"Ll"),(11458,11458,"Lu"),(11459,11459,"Ll"),
(11460,11460,"Lu"),(11461,11461,"Ll"),(11462,11462,"Lu"),(11463,11463,"Ll"),(11464,11464,"Lu"),(11465,11465,"Ll"),(11466,11466,"Lu"),
(11467,11467,"Ll"),(11468,11468,"Lu"),(11469,11469,"Ll"),(11470,11470,"Lu"),(11471,11471,"Ll"),(11472,11472,"Lu"),(11473,11473,"Ll"),
(11474,11474,"Lu"),(11475,11475,"Ll"),(11476,11476,"Lu"),(11477,11477,"Ll"),(11478,11478,"Lu"),(11479,11479,"Ll"),(11480,11480,"Lu"),
(11481,11481,"Ll"),(11482,11482,"Lu"),(11483,11483,"Ll"),(11484,11484,"Lu"),(11485,11485,"Ll"),(11486,11486,"Lu"),(11487,11487,"Ll"),
(11488,11488,"Lu"),(11489,11489,"Ll"),(11490,11490,"Lu"),(11491,11492,"Ll"),(11493,11498,"So"),(11499,11499,"Lu"),(11500,11500,"Ll"),
(11501,11501,"Lu"),(11502,11502,"Ll"),(11503,11505,"Mn"),(11506,11506,"Lu"),(11507,11507,"Ll"),(11513,11516,"Po"),(11517,11517,"No"),
(11518,11519,"Po"),(11520,11557,"Ll"),(11559,11559,"Ll"),(11565,11565,"Ll"),(11568,11623,"Lo"),(11631,11631,"Lm"),(11632,11632,"Po"),
(11647,11647,"Mn"),(11648,11670,"Lo"),(11680,11686,"Lo"),(11688,11694,"Lo"),(11696,11702,"Lo"),(11704,11710,"Lo"),(11712,11718,"Lo"),
(11720,11726,"Lo"),(11728,11734,"Lo"),(11736,11742,"Lo"),(11744,11775,"Mn"),(11776,11777,"Po"),(11778,11778,"Pi"),(11779,11779,"Pf"),
(11780,11780,"Pi"),(11781,11781,"Pf"),(11782,11784,"Po"),(11785,11785,"Pi"),(11786,11786,"Pf"),(11787,11787,"Po"),(11788,11788,"Pi"),
(11789,11789,"Pf"),(11790,11798,"Po"),(11799,11799,"Pd"),(11800,11801,"Po"),(11802,11802,"Pd"),(11803,11803,"Po"),(11804,11804,"Pi"),
(11805,11805,"Pf"),(11806,11807,"Po"),(11808,11808,"Pi"),(11809,11809,"Pf"),(11810,11810,"Ps"),(11811,11811,"Pe"),(11812,11812,"Ps"),
(11813,11813,"Pe"),(11814,11814,"Ps"),(11815,11815,"Pe"),(11816,11816,"Ps"),(11817,11817,"Pe"),(11818,11822,"Po"),(11823,11823,"Lm"),
(11824,11833,"Po"),(11834,11835,"Pd"),(11836,11839,"Po"),(11840,11840,"Pd"),(11841,11841,"Po"),(11842,11842,"Ps"),(11843,11855,"Po"),
(11856,11857,"So"),(11858,11860,"Po"),(11861,11861,"Ps"),(11862,11862,"Pe"),(11863,11863,"Ps"),(11864,11864,"Pe"),(11865,11865,"Ps"),
(11866,11866,"Pe"),(11867,11867,"Ps"),(11868,11868,"Pe"),(11869,11869,"Pd"),(11904,11929,"So"),(11931,12019,"So"),(12032,12245,"So"),
(12272,12283,"So"),(12288,12288,"Zs"),(12289,12291,"Po"),(12292,12292,"So"),(12293,12293,"Lm"),(12294,12294,"Lo"),(12295,12295,"Nl"),
(12296,12296,"Ps"),(12297,12297,"Pe"),(12298,12298,"Ps"),(12299,12299,"Pe"),(12300,12300,"Ps"),(12301,12301,"Pe"),(12302,12302,"Ps"),
(12303,12303,"Pe"),(12304,12304,"Ps"),(12305,12305,"Pe"),(12306,12307,"So"),(12308,12308,"Ps"),(12309,12309,"Pe"),(12310,12310,"Ps"),
(12311,12311,"Pe"),(12312,12312,"Ps"),(12313,12313,"Pe"),(12314,12314,"Ps"),(12315,12315,"Pe"),(12316,12316,"Pd"),(12317,12317,"Ps"),
(12318,12319,"Pe"),(12320,12320,"So"),(12321,12329,"Nl"),(12330,12333,"Mn"),(12334,12335,"Mc"),(12336,12336,"Pd"),(12337,12341,"Lm"),
(12342,12343,"So"),(12344,12346,"Nl"),(12347,12347,"Lm"),(12348,12348,"Lo"),(12349,12349,"Po"),(12350,12351,"So"),(12353,12438,"Lo"),
(12441,12442,"Mn"),(12443,12444,"Sk"),(12445,12446,"Lm"),(12447,12447,"Lo"),(12448,12448,"Pd"),(12449,12538,"Lo"),(12539,12539,"Po"),
(12540,12542,"Lm"),(12543,12543,"Lo"),(12549,12591,"Lo"),(12593,12686,"Lo"),(12688,12689,"So"),(12690,12693,"No"),(12694,12703,"So"),
(12704,12735,"Lo"),(12736,12771,"So"),(12784,12799,"Lo"),(12800,12830,"So"),(12832,12841,"No"),(12842,12871,"So"),(12872,12879,"No"),
(12880,12880,"So"),(12881,12895,"No"),(12896,12927,"So"),(12928,12937,"No"),(12938,12976,"So"),(12977,12991,"No"),(12992,13311,"So"),
(13312,19903,"Lo"),(19904,19967,"So"),(19968,40980,"Lo"),(40981,40981,"Lm"),(40982,42124,"Lo"),(42128,42182,"So"),(42192,42231,"Lo"),
(42232,42237,"Lm"),(42238,42239,"Po"),(42240,42507,"Lo"),(42508,42508,"Lm"),(42509,42511,"Po"),(42512,42527,"Lo"),(42528,42537,"Nd"),
(42538,42539,"Lo"),(42560,42560,"Lu"),(42561,42561,"Ll"),(42562,42562,"Lu"),(42563,42563,"Ll"),(42564,42564,"Lu"),(42565,42565,"Ll"),
(42566,42566,"Lu"),(42567,42567,"Ll"),(42568,42568,"Lu"),(42569,42569,"Ll"),(42570,42570,"Lu"),(42571,42571,"Ll"),(42572,42572,"Lu"),
(42573,42573,"Ll"),(42574,42574,"Lu"),(42575,42575,"Ll"),(42576,42576,"Lu"),(42577,42577,"Ll"),(42578,42578,"Lu"),(42579,42579,"Ll"),
(42580,42580,"Lu"),(42581,42581,"Ll"),(42582,42582,"Lu"),(42583,42583,"Ll"),(42584,42584,"Lu"),(42585,42585,"Ll"),(42586,42586,"Lu"),
(42587,42587,"Ll"),(42588,42588,"Lu"),(42589,42589,"Ll"),(42590,42590,"Lu"),(42591,42591,"Ll"),(42592,42592,"Lu"),(42593,42593,"Ll"),
(42594,42594,"Lu"),(42595,42595,"Ll"),(42596,42596,"Lu"),(42597,42597,"Ll"),(42598,42598,"Lu"),(42599,42599,"Ll"),(42600,42600,"Lu"),
(42601,42601,"Ll"),(42602,42602,"Lu"),(42603,42603,"Ll"),(42604,42604,"Lu"),(42605,42605,"Ll"),(42606,42606,"Lo"),(42607,42607,"Mn"),
(42608,42610,"Me"),(42611,42611,"Po"),(42612,42621,"Mn"),(42622,42622,"Po"),(42623,42623,"Lm"),(42624,42624,"Lu"),(42625,42625,"Ll"),
(42626,42626,"Lu"),(42627,42627,"Ll"),(42628,42628,"Lu"),(42629,42629,"Ll"),(42630,42630,"Lu"),(42631,42631,"Ll"),(42632,42632,"Lu"),
(42633,42633,"Ll"),(42634,42634,"Lu"),(42635,42635,"Ll"),(42636,42636,"Lu"),(42637,42637,"Ll"),(42638,42638,"Lu"),(42639,42639,"Ll"),
(42640,42640,"Lu"),(42641,42641,"Ll"),(42642,42642,"Lu"),(42643,42643,"Ll"),(42644,42644,"Lu"),(42645,42645,"Ll"),(42646,42646,"Lu"),
(42647,42647,"Ll"),(42648,42648,"Lu"),(42649,42649,"Ll"),(42650,42650,"Lu"),(42651,42651,"Ll"),(42652,42653,"Lm"),(42654,42655,"Mn"),
(42656,42725,"Lo"),(42726,42735,"Nl"),(42736,42737,"Mn"),(42738,42743,"Po"),(42752,42774,"Sk"),(42775,42783,"Lm"),(42784,42785,"Sk"),
(42786,42786,"Lu"),(42787,42787,"Ll"),(42788,42788,"Lu"),(42789,42789,"Ll"),(42790,42790,"Lu"),(42791,42791,"Ll"),(42792,42792,"Lu"),
(42793,42793,"Ll"),(42794,42794,"Lu"),(42795,42795,"Ll"),(42796,42796,"Lu"),(42797,42797,"Ll"),(42798,42798,"Lu"),(42799,42801,"Ll"),
(42802,42802,"Lu"),(42803,42803,"Ll"),(42804,42804,"Lu"),(42805,42805,"Ll"),(42806,42806,"Lu"),(42807,42807,"Ll"),(42808,42808,"Lu"),
(42809,42809,"Ll"),(42810,42810,"Lu"),(42811,42811,"Ll"),(42812,42812,"Lu"),(42813,42813,"Ll"),(42814,42814,"Lu"),(42815,42815,"Ll"),
(42816,42816,"Lu"),(42817,42817,"Ll"),(42818,42818,"Lu"),(42819,42819,"Ll"),(42820,42820,"Lu"),(42821,42821,"Ll"),(42822,42822,"Lu"),
(42823,42823,"Ll"),(42824,42824,"Lu"),(42825,42825,"Ll"),(42826,42826,"Lu"),(42827,42827,"Ll"),(42828,42828,"Lu"),(42829,42829,"Ll"),
(42830,42830,"Lu"),(42831,42831,"Ll"),(42832,42832,"Lu"),(42833,42833,"Ll"),(42834,42834,"Lu"),(42835,42835,"Ll"),(42836,42836,"Lu"),
(42837,42837,"Ll"),(42838,42838,"Lu"),(42839,42839,"Ll"),(42840,42840,"Lu"),(42841,42841,"Ll"),(42842,42842,"Lu"),(42843,42843,"Ll"),
(42844,42844,"Lu"),(42845,42845,"Ll"),(42846,42846,"Lu"),(42847,42847,"Ll"),(42848,42848,"Lu"),(42849,42849,"Ll"),(42850,42850,"Lu"),
(42851,42851,"Ll"),(42852,42852,"Lu"),(42853,42853,"Ll"),(42854,42854,"Lu"),(42855,42855,"Ll"),(42856,42856,"Lu"),(42857,42857,"Ll"),
(42858,42858,"Lu"),(42859,42859,"Ll"),(42860,42860,"Lu"),(42861,42861,"Ll"),(42862,42862,"Lu"),(42863,42863,"Ll"),(42864,42864,"Lm"),
(42865,42872,"Ll"),(42873,42873,"Lu"),(42874,42874,"Ll"),(42875,42875,"Lu"),(42876,42876,"Ll"),(42877,42878,"Lu"),(42879,42879,"Ll"),
(42880,42880,"Lu"),(42881,42881,"Ll"),(42882,42882,"Lu"),(42883,42883,"Ll"),(42884,42884,"Lu"),(42885,42885,"Ll"),(42886,42886,"Lu"),
(42887,42887,"Ll"),(42888,42888,"Lm"),(42889,42890,"Sk"),(42891,42891,"Lu"),(42892,42892,"Ll"),(42893,42893,"Lu"),(42894,42894,"Ll"),
(42895,42895,"Lo"),(42896,42896,"Lu"),(42897,42897,"Ll"),(42898,42898,"Lu"),(42899,42901,"Ll"),(42902,42902,"Lu"),(42903,42903,"Ll"),
(42904,42904,"Lu"),(42905,42905,"Ll"),(42906,42906,"Lu"),(42907,42907,"Ll"),(42908,42908,"Lu"),(42909,42909,"Ll"),(42910,42910,"Lu"),
(42911,42911,"Ll"),(42912,42912,"Lu"),(42913,42913,"Ll"),(42914,42914,"Lu"),(42915,42915,"Ll"),(42916,42916,"Lu"),(42917,42917,"Ll"),
(42918,42918,"Lu"),(42919,42919,"Ll"),(42920,42920,"Lu"),(42921,42921,"Ll"),(42922,42926,"Lu"),(42927,42927,"Ll"),(42928,42932,"Lu"),
(42933,42933,"Ll"),(42934,42934,"Lu"),(42935,42935,"Ll"),(42936,42936,"Lu"),(42937,42937,"Ll"),(42938,42938,"Lu"),(42939,42939,"Ll"),
(42940,42940,"Lu"),(42941,42941,"Ll"),(42942,42942,"Lu"),(42943,42943,"Ll"),(42944,42944,"Lu"),(42945,42945,"Ll"),(42946,42946,"Lu"),
(42947,42947,"Ll"),(42948,42951,"Lu"),(42952,42952,"Ll"),(42953,42953,"Lu"),(42954,42954,"Ll"),(42960,42960,"Lu"),(42961,42961,"Ll"),
(42963,42963,"Ll"),(42965,42965,"Ll"),(42966,42966,"Lu"),(42967,42967,"Ll"),(42968,42968,"Lu"),(42969,42969,"Ll"),(42994,42996,"Lm"),
(42997,42997,"Lu"),(42998,42998,"Ll"),(42999,42999,"Lo"),(43000,43001,"Lm"),(43002,43002,"Ll"),(43003,43009,"Lo"),(43010,43010,"Mn"),
(43011,43013,"Lo"),(43014,43014,"Mn"),(43015,43018,"Lo"),(43019,43019,"Mn"),(43020,43042,"Lo"),(43043,43044,"Mc"),(43045,43046,"Mn"),
(43047,43047,"Mc"),(43048,43051,"So"),(43052,43052,"Mn"),(43056,43061,"No"),(43062,43063,"So"),(43064,43064,"Sc"),(43065,43065,"So"),
(43072,43123,"Lo"),(43124,43127,"Po"),(43136,43137,"Mc"),(43138,43187,"Lo"),(43188,43203,"Mc"),(43204,43205,"Mn"),(43214,43215,"Po"),
(43216,43225,"Nd"),(43232,43249,"Mn"),(43250,43255,"Lo"),(43256,43258,"Po"),(43259,43259,"Lo"),(43260,43260,"Po"),(43261,43262,"Lo"),
(43263,43263,"Mn"),(43264,43273,"Nd"),(43274,43301,"Lo"),(43302,43309,"Mn"),(43310,43311,"Po"),(43312,43334,"Lo"),(43335,43345,"Mn"),
(43346,43347,"Mc"),(43359,43359,"Po"),(43360,43388,"Lo"),(43392,43394,"Mn"),(43395,43395,"Mc"),(43396,43442,"Lo"),(43443,43443,"Mn"),
(43444,43445,"Mc"),(43446,43449,"Mn"),(43450,43451,"Mc"),(43452,43453,"Mn"),(43454,43456,"Mc"),(43457,43469,"Po"),(43471,43471,"Lm"),
(43472,43481,"Nd"),(43486,43487,"Po"),(43488,43492,"Lo"),(43493,43493,"Mn"),(43494,43494,"Lm"),(43495,43503,"Lo"),(43504,43513,"Nd"),
(43514,43518,"Lo"),(43520,43560,"Lo"),(43561,43566,"Mn"),(43567,43568,"Mc"),(43569,43570,"Mn"),(43571,43572,"Mc"),(43573,43574,"Mn"),
(43584,43586,"Lo"),(43587,43587,"Mn"),(43588,43595,"Lo"),(43596,43596,"Mn"),(43597,43597,"Mc"),(43600,43609,"Nd"),(43612,43615,"Po"),
(43616,43631,"Lo"),(43632,43632,"Lm"),(43633,43638,"Lo"),(43639,43641,"So"),(43642,43642,"Lo"),(43643,43643,"Mc"),(43644,43644,"Mn"),
(43645,43645,"Mc"),(43646,43695,"Lo"),(43696,43696,"Mn"),(43697,43697,"Lo"),(43698,43700,"Mn"),(43701,43702,"Lo"),(43703,43704,"Mn"),
(43705,43709,"Lo"),(43710,43711,"Mn"),(43712,43712,"Lo"),(43713,43713,"Mn"),(43714,43714,"Lo"),(43739,43740,"Lo"),(43741,43741,"Lm"),
(43742,43743,"Po"),(43744,43754,"Lo"),(43755,43755,"Mc"),(43756,43757,"Mn"),(43758,43759,"Mc"),(43760,43761,"Po"),(43762,43762,"Lo"),
(43763,43764,"Lm"),(43765,43765,"Mc"),(43766,43766,"Mn"),(43777,43782,"Lo"),(43785,43790,"Lo"),(43793,43798,"Lo"),(43808,43814,"Lo"),
(43816,43822,"Lo"),(43824,43866,"Ll"),(43867,43867,"Sk"),(43868,43871,"Lm"),(43872,43880,"Ll"),(43881,43881,"Lm"),(43882,43883,"Sk"),
(43888,43967,"Ll"),(43968,44002,"Lo"),(44003,44004,"Mc"),(44005,44005,"Mn"),(44006,44007,"Mc"),(44008,44008,"Mn"),(44009,44010,"Mc"),
(44011,44011,"Po"),(44012,44012,"Mc"),(44013,44013,"Mn"),(44016,44025,"Nd"),(44032,55203,"Lo"),(55216,55238,"Lo"),(55243,55291,"Lo"),
(57344,63743,"Co"),(63744,64109,"Lo"),(64112,64217,"Lo"),(64256,64262,"Ll"),(64275,64279,"Ll"),(64285,64285,"Lo"),(64286,64286,"Mn"),
(64287,64296,"Lo"),(64297,64297,"Sm"),(64298,64310,"Lo"),(64312,64316,"Lo"),(64318,64318,"Lo"),(64320,64321,"Lo"),(64323,64324,"Lo"),
(64326,64433,"Lo"),(64434,64450,"Sk"),(64467,64829,"Lo"),(64830,64830,"Pe"),(64831,64831,"Ps"),(64832,64847,"So"),(64848,64911,"Lo"),
(64914,64967,"Lo"),(64975,64975,"So"),(65008,65019,"Lo"),(65020,65020,"Sc"),(65021,65023,"So"),(65024,65039,"Mn"),(65040,65046,"Po"),
(65047,65047,"Ps"),(65048,65048,"Pe"),(65049,65049,"Po"),(65056,65071,"Mn"),(65072,65072,"Po"),(65073,65074,"Pd"),(65075,65076,"Pc"),
(65077,65077,"Ps"),(65078,65078,"Pe"),(65079,65079,"Ps"),(65080,65080,"Pe"),(65081,65081,"Ps"),(65082,65082,"Pe"),(65083,65083,"Ps"),
(65084,65084,"Pe"),(65085,65085,"Ps"),(65086,65086,"Pe"),(65087,65087,"Ps"),(65088,65088,"Pe"),(65089,65089,"Ps"),(65090,65090,"Pe"),
(65091,65091,"Ps"),(65092,65092,"Pe"),(65093,65094,"Po"),(65095,65095,"Ps"),(65096,65096,"Pe"),(65097,65100,"Po"),(65101,65103,"Pc"),
(65104,65106,"Po"),(65108,65111,"Po"),(65112,65112,"Pd"),(65113,65113,"Ps"),(65114,65114,"Pe"),(65115,65115,"Ps"),(65116,65116,"Pe"),
(65117,65117,"Ps"),(65118,65118,"Pe"),(65119,65121,"Po"),(65122,65122,"Sm"),(65123,65123,"Pd"),(65124,65126,"Sm"),(65128,65128,"Po"),
(65129,65129,"Sc"),(65130,65131,"Po"),(65136,65140,"Lo"),(65142,65276,"Lo"),(65279,65279,"Cf"),(65281,65283,"Po"),(65284,65284,"Sc"),
(65285,65287,"Po"),(65288,65288,"Ps"),(65289,65289,"Pe"),(65290,65290,"Po"),(65291,65291,"Sm"),(65292,65292,"Po"),(65293,65293,"Pd"),
(65294,65295,"Po"),(65296,65305,"Nd"),(65306,65307,"Po"),(65308,65310,"Sm"),(65311,65312,"Po"),(65313,65338,"Lu"),(65339,65339,"Ps"),
(65340,65340,"Po"),(65341,65341,"Pe"),(65342,65342,"Sk"),(65343,65343,"Pc"),(65344,65344,"Sk"),(65345,65370,"Ll"),(65371,65371,"Ps"),
(65372,65372,"Sm"),(65373,65373,"Pe"),(65374,65374,"Sm"),(65375,65375,"Ps"),(65376,65376,"Pe"),(65377,65377,"Po"),(65378,65378,"Ps"),
(65379,65379,"Pe"),(65380,65381,"Po"),(65382,65391,"Lo"),(65392,65392,"Lm"),(65393,65437,"Lo"),(65438,65439,"Lm"),(65440,65470,"Lo"),
(65474,65479,"Lo"),(65482,65487,"Lo"),(65490,65495,"Lo"),(65498,65500,"Lo"),(65504,65505,"Sc"),(65506,65506,"Sm"),(65507,65507,"Sk"),
(65508,65508,"So"),(65509,65510,"Sc"),(65512,65512,"So"),(65513,65516,"Sm"),(65517,65518,"So"),(65529,65531,"Cf"),(65532,65533,"So"),
(65536,65547,"Lo"),(65549,65574,"Lo"),(65576,65594,"Lo"),(65596,65597,"Lo"),(65599,65613,"Lo"),(65616,65629,"Lo"),(65664,65786,"Lo"),
(65792,65794,"Po"),(65799,65843,"No"),(65847,65855,"So"),(65856,65908,"Nl"),(65909,65912,"No"),(65913,65929,"So"),(65930,65931,"No"),
(65932,65934,"So"),(65936,65948,"So"),(65952,65952,"So"),(66000,66044,"So"),(66045,66045,"Mn"),(66176,66204,"Lo"),(66208,66256,"Lo"),
(66272,66272,"Mn"),(66273,66299,"No"),(66304,66335,"Lo"),(66336,66339,"No"),(66349,66368,"Lo"),(66369,66369,"Nl"),(66370,66377,"Lo"),
(66378,66378,"Nl"),(66384,66421,"Lo"),(66422,66426,"Mn"),(66432,66461,"Lo"),(66463,66463,"Po"),(66464,66499,"Lo"),(66504,66511,"Lo"),
(66512,66512,"Po"),(66513,66517,"Nl"),(66560,66599,"Lu"),(66600,66639,"Ll"),(66640,66717,"Lo"),(66720,66729,"Nd"),(66736,66771,"Lu"),
(66776,66811,"Ll"),(66816,66855,"Lo"),(66864,66915,"Lo"),(66927,66927,"Po"),(66928,66938,"Lu"),(66940,66954,"Lu"),(66956,66962,"Lu"),
(66964,66965,"Lu"),(66967,66977,"Ll"),(66979,66993,"Ll"),(66995,67001,"Ll"),(67003,67004,"Ll"),(67072,67382,"Lo"),(67392,67413,"Lo"),
(67424,67431,"Lo"),(67456,67461,"Lm"),(67463,67504,"Lm"),(67506,67514,"Lm"),(67584,67589,"Lo"),(67592,67592,"Lo"),(67594,67637,"Lo"),
(67639,67640,"Lo"),(67644,67644,"Lo"),(67647,67669,"Lo"),(67671,67671,"Po"),(67672,67679,"No"),(67680,67702,"Lo"),(67703,67704,"So"),
(67705,67711,"No"),(67712,67742,"Lo"),(67751,67759,"No"),(67808,67826,"Lo"),(67828,67829,"Lo"),(67835,67839,"No"),(67840,67861,"Lo"),
(67862,67867,"No"),(67871,67871,"Po"),(67872,67897,"Lo"),(67903,67903,"Po"),(67968,68023,"Lo"),(68028,68029,"No"),(68030,68031,"Lo"),
(68032,68047,"No"),(68050,68095,"No"),(68096,68096,"Lo"),(68097,68099,"Mn"),(68101,68102,"Mn"),(68108,68111,"Mn"),(68112,68115,"Lo"),
(68117,68119,"Lo"),(68121,68149,"Lo"),(68152,68154,"Mn"),(68159,68159,"Mn"),(68160,68168,"No"),(68176,68184,"Po"),(68192,68220,"Lo"),
(68221,68222,"No"),(68223,68223,"Po"),(68224,68252,"Lo"),(68253,68255,"No"),(68288,68295,"Lo"),(68296,68296,"So"),(68297,68324,"Lo"),
(68325,68326,"Mn"),(68331,68335,"No"),(68336,68342,"Po"),(68352,68405,"Lo"),(68409,68415,"Po"),(68416,68437,"Lo"),(68440,68447,"No"),
(68448,68466,"Lo"),(68472,68479,"No"),(68480,68497,"Lo"),(68505,68508,"Po"),(68521,68527,"No"),(68608,68680,"Lo"),(68736,68786,"Lu"),
(68800,68850,"Ll"),(68858,68863,"No"),(68864,68899,"Lo"),(68900,68903,"Mn"),(68912,68921,"Nd"),(69216,69246,"No"),(69248,69289,"Lo"),
(69291,69292,"Mn"),(69293,69293,"Pd"),(69296,69297,"Lo"),(69373,69375,"Mn"),(69376,69404,"Lo"),(69405,69414,"No"),(69415,69415,"Lo"),
(69424,69445,"Lo"),(69446,69456,"Mn"),(69457,69460,"No"),(69461,69465,"Po"),(69488,69505,"Lo"),(69506,69509,"Mn"),(69510,69513,"Po"),
(69552,69572,"Lo"),(69573,69579,"No"),(69600,69622,"Lo"),(69632,69632,"Mc"),(69633,69633,"Mn"),(69634,69634,"Mc"),(69635,69687,"Lo"),
(69688,69702,"Mn"),(69703,69709,"Po"),(69714,69733,"No"),(69734,69743,"Nd"),(69744,69744,"Mn"),(69745,69746,"Lo"),(69747,69748,"Mn"),
(69749,69749,"Lo"),(69759,69761,"Mn"),(69762,69762,"Mc"),(69763,69807,"Lo"),(69808,69810,"Mc"),(69811,69814,"Mn"),(69815,69816,"Mc"),
(69817,69818,"Mn"),(69819,69820,"Po"),(69821,69821,"Cf"),(69822,69825,"Po"),(69826,69826,"Mn"),(69837,69837,"Cf"),(69840,69864,"Lo"),
(69872,69881,"Nd"),(69888,69890,"Mn"),(69891,69926,"Lo"),(69927,69931,"Mn"),(69932,69932,"Mc"),(69933,69940,"Mn"),(69942,69951,"Nd"),
(69952,69955,"Po"),(69956,69956,"Lo"),(69957,69958,"Mc"),(69959,69959,"Lo"),(69968,70002,"Lo"),(70003,70003,"Mn"),(70004,70005,"Po"),
(70006,70006,"Lo"),(70016,70017,"Mn"),(70018,70018,"Mc"),(70019,70066,"Lo"),(70067,70069,"Mc"),(70070,70078,"Mn"),(70079,70080,"Mc"),
(70081,70084,"Lo"),(70085,70088,"Po"),(70089,70092,"Mn"),(70093,70093,"Po"),(70094,70094,"Mc"),(70095,70095,"Mn"),(70096,70105,"Nd"),
(70106,70106,"Lo"),(70107,70107,"Po"),(70108,70108,"Lo"),(70109,70111,"Po"),(70113,70132,"No"),(70144,70161,"Lo"),(70163,70187,"Lo"),
(70188,70190,"Mc"),(70191,70193,"Mn"),(70194,70195,"Mc"),(70196,70196,"Mn"),(70197,70197,"Mc"),(70198,70199,"Mn"),(70200,70205,"Po"),
(70206,70206,"Mn"),(70207,70208,"Lo"),(70209,70209,"Mn"),(70272,70278,"Lo"),(70280,70280,"Lo"),(70282,70285,"Lo"),(70287,70301,"Lo"),
(70303,70312,"Lo"),(70313,70313,"Po"),(70320,70366,"Lo"),(70367,70367,"Mn"),(70368,70370,"Mc"),(70371,70378,"Mn"),(70384,70393,"Nd"),
(70400,70401,"Mn"),(70402,70403,"Mc"),(70405,70412,"Lo"),(70415,70416,"Lo"),(70419,70440,"Lo"),(70442,70448,"Lo"),(70450,70451,"Lo"),
(70453,70457,"Lo"),(70459,70460,"Mn"),(70461,70461,"Lo"),(70462,70463,"Mc"),(70464,70464,"Mn"),(70465,70468,"Mc"),(70471,70472,"Mc"),
(70475,70477,"Mc"),(70480,70480,"Lo"),(70487,70487,"Mc"),(70493,70497,"Lo"),(70498,70499,"Mc"),(70502,70508,"Mn"),(70512,70516,"Mn"),
(70656,70708,"Lo"),(70709,70711,"Mc"),(70712,70719,"Mn"),(70720,70721,"Mc"),(70722,70724,"Mn"),(70725,70725,"Mc"),(70726,70726,"Mn"),
(70727,70730,"Lo"),(70731,70735,"Po"),(70736,70745,"Nd"),(70746,70747,"Po"),(70749,70749,"Po"),(70750,70750,"Mn"),(70751,70753,"Lo"),
(70784,70831,"Lo"),(70832,70834,"Mc"),(70835,70840,"Mn"),(70841,70841,"Mc"),(70842,70842,"Mn"),(70843,70846,"Mc"),(70847,70848,"Mn"),
(70849,70849,"Mc"),(70850,70851,"Mn"),(70852,70853,"Lo"),(70854,70854,"Po"),(70855,70855,"Lo"),(70864,70873,"Nd"),(71040,71086,"Lo"),
(71087,71089,"Mc"),(71090,71093,"Mn"),(71096,71099,"Mc"),(71100,71101,"Mn"),(71102,71102,"Mc"),(71103,71104,"Mn"),(71105,71127,"Po"),
(71128,71131,"Lo"),(71132,71133,"Mn"),(71168,71215,"Lo"),(71216,71218,"Mc"),(71219,71226,"Mn"),(71227,71228,"Mc"),(71229,71229,"Mn"),
(71230,71230,"Mc"),(71231,71232,"Mn"),(71233,71235,"Po"),(71236,71236,"Lo"),(71248,71257,"Nd"),(71264,71276,"Po"),(71296,71338,"Lo"),
(71339,71339,"Mn"),(71340,71340,"Mc"),(71341,71341,"Mn"),(71342,71343,"Mc"),(71344,71349,"Mn"),(71350,71350,"Mc"),(71351,71351,"Mn"),
(71352,71352,"Lo"),(71353,71353,"Po"),(71360,71369,"Nd"),(71424,71450,"Lo"),(71453,71453,"Mn"),(71455,71455,"Mn"),(71456,71457,"Mc"),(71458,71461,"Mn"),
(71462,71462,"Mc"),(71463,71467,"Mn"),(71472,71481,"Nd"),(71482,71483,"No"),(71484,71486,"Po"),(71487,71487,"So"),(71488,71494,"Lo"),
(71680,71723,"Lo"),(71724,71726,"Mc"),(71727,71735,"Mn"),(71736,71736,"Mc"),(71737,71738,"Mn"),(71739,71739,"Po"),(71840,71871,"Lu"),
(71872,71903,"Ll"),(71904,71913,"Nd"),(71914,71922,"No"),(71935,71942,"Lo"),(71945,71945,"Lo"),(71948,71955,"Lo"),(71957,71958,"Lo"),
(71960,71983,"Lo"),(71984,71989,"Mc"),(71991,71992,"Mc"),(71995,71996,"Mn"),(71997,71997,"Mc"),(71998,71998,"Mn"),(71999,71999,"Lo"),
(72000,72000,"Mc"),(72001,72001,"Lo"),(72002,72002,"Mc"),(72003,72003,"Mn"),(72004,72006,"Po"),(72016,72025,"Nd"),(72096,72103,"Lo"),
(72106,72144,"Lo"),(72145,72147,"Mc"),(72148,72151,"Mn"),(72154,72155,"Mn"),(72156,72159,"Mc"),(72160,72160,"Mn"),(72161,72161,"Lo"),
(72162,72162,"Po"),(72163,72163,"Lo"),(72164,72164,"Mc"),(72192,72192,"Lo"),(72193,72202,"Mn"),(72203,72242,"Lo"),(72243,72248,"Mn"),
(72249,72249,"Mc"),(72250,72250,"Lo"),(72251,72254,"Mn"),(72255,72262,"Po"),(72263,72263,"Mn"),(72272,72272,"Lo"),(72273,72278,"Mn"),
(72279,72280,"Mc"),(72281,72283,"Mn"),(72284,72329,"Lo"),(72330,72342,"Mn"),(72343,72343,"Mc"),(72344,72345,"Mn"),(72346,72348,"Po"),
(72349,72349,"Lo"),(72350,72354,"Po"),(72368,72440,"Lo"),(72448,72457,"Po"),(72704,72712,"Lo"),(72714,72750,"Lo"),(72751,72751,"Mc"),
(72752,72758,"Mn"),(72760,72765,"Mn"),(72766,72766,"Mc"),(72767,72767,"Mn"),(72768,72768,"Lo"),(72769,72773,"Po"),(72784,72793,"Nd"),
(72794,72812,"No"),(72816,72817,"Po"),(72818,72847,"Lo"),(72850,72871,"Mn"),(72873,72873,"Mc"),(72874,72880,"Mn"),(72881,72881,"Mc"),
(72882,72883,"Mn"),(72884,72884,"Mc"),(72885,72886,"Mn"),(72960,72966,"Lo"),(72968,72969,"Lo"),(72971,73008,"Lo"),(73009,73014,"Mn"),
(73018,73018,"Mn"),(73020,73021,"Mn"),(73023,73029,"Mn"),(73030,73030,"Lo"),(73031,73031,"Mn"),(73040,73049,"Nd"),(73056,73061,"Lo"),
(73063,73064,"Lo"),(73066,73097,"Lo"),(73098,73102,"Mc"),(73104,73105,"Mn"),(73107,73108,"Mc"),(73109,73109,"Mn"),(73110,73110,"Mc"),
(73111,73111,"Mn"),(73112,73112,"Lo"),(73120,73129,"Nd"),(73440,73458,"Lo"),(73459,73460,"Mn"),(73461,73462,"Mc"),(73463,73464,"Po"),
(73472,73473,"Mn"),(73474,73474,"Lo"),(73475,73475,"Mc"),(73476,73488,"Lo"),(73490,73523,"Lo"),(73524,73525,"Mc"),(73526,73530,"Mn"),
(73534,73535,"Mc"),(73536,73536,"Mn"),(73537,73537,"Mc"),(73538,73538,"Mn"),(73539,73551,"Po"),(73552,73561,"Nd"),(73648,73648,"Lo"),
(73664,73684,"No"),(73685,73692,"So"),(73693,73696,"Sc"),(73697,73713,"So"),(73727,73727,"Po"),(73728,74649,"Lo"),(74752,74862,"Nl"),
(74864,74868,"Po"),(74880,75075,"Lo"),(77712,77808,"Lo"),(77809,77810,"Po"),(77824,78895,"Lo"),(78896,78911,"Cf"),(78912,78912,"Mn"),
(78913,78918,"Lo"),(78919,78933,"Mn"),(82944,83526,"Lo"),(92160,92728,"Lo"),(92736,92766,"Lo"),(92768,92777,"Nd"),(92782,92783,"Po"),
(92784,92862,"Lo"),(92864,92873,"Nd"),(92880,92909,"Lo"),(92912,92916,"Mn"),(92917,92917,"Po"),(92928,92975,"Lo"),(92976,92982,"Mn"),
(92983,92987,"Po"),(92988,92991,"So"),(92992,92995,"Lm"),(92996,92996,"Po"),(92997,92997,"So"),(93008,93017,"Nd"),(93019,93025,"No"),
(93027,93047,"Lo"),(93053,93071,"Lo"),(93760,93791,"Lu"),(93792,93823,"Ll"),(93824,93846,"No"),(93847,93850,"Po"),(93952,94026,"Lo"),
(94031,94031,"Mn"),(94032,94032,"Lo"),(94033,94087,"Mc"),(94095,94098,"Mn"),(94099,94111,"Lm"),(94176,94177,"Lm"),(94178,94178,"Po"),
(94179,94179,"Lm"),(94180,94180,"Mn"),(94192,94193,"Mc"),(94208,100343,"Lo"),(100352,101589,"Lo"),(101632,101640,"Lo"),(110576,110579,"Lm"),
(110581,110587,"Lm"),(110589,110590,"Lm"),(110592,110882,"Lo"),(110898,110898,"Lo"),(110928,110930,"Lo"),(110933,110933,"Lo"),(110948,110951,"Lo"),
(110960,111355,"Lo"),(113664,113770,"Lo"),(113776,113788,"Lo"),(113792,113800,"Lo"),(113808,113817,"Lo"),(113820,113820,"So"),(113821,113822,"Mn"),
(113823,113823,"Po"),(113824,113827,"Cf"),(118528,118573,"Mn"),(118576,118598,"Mn"),(118608,118723,"So"),(118784,119029,"So"),(119040,119078,"So"),
(119081,119140,"So"),(119141,119142,"Mc"),(119143,119145,"Mn"),(119146,119148,"So"),(119149,119154,"Mc"),(119155,119162,"Cf"),(119163,119170,"Mn"),
(119171,119172,"So"),(119173,119179,"Mn"),(119180,119209,"So"),(119210,119213,"Mn"),(119214,119274,"So"),(119296,119361,"So"),(119362,119364,"Mn"),
(119365,119365,"So"),(119488,119507,"No"),(119520,119539,"No"),(119552,119638,"So"),(119648,119672,"No"),(119808,119833,"Lu"),(119834,119859,"Ll"),
(119860,119885,"Lu"),(119886,119892,"Ll"),(119894,119911,"Ll"),(119912,119937,"Lu"),(119938,119963,"Ll"),(119964,119964,"Lu"),(119966,119967,"Lu"),
(119970,119970,"Lu"),(119973,119974,"Lu"),(119977,119980,"Lu"),(119982,119989,"Lu"),(119990,119993,"Ll"),(119995,119995,"Ll"),(119997,120003,"Ll"),
(120005,120015,"Ll"),(120016,120041,"Lu"),(120042,120067,"Ll"),(120068,120069,"Lu"),(120071,120074,"Lu"),(120077,120084,"Lu"),(120086,120092,"Lu"),
(120094,120119,"Ll"),(120120,120121,"Lu"),(120123,120126,"Lu"),(120128,120132,"Lu"),(120134,120134,"Lu"),(120138,120144,"Lu"),(120146,120171,"Ll"),
(120172,120197,"Lu"),(120198,120223,"Ll"),(120224,120249,"Lu"),(120250,120275,"Ll"),(120276,120301,"Lu"),(120302,120327,"Ll"),(120328,120353,"Lu"),
(120354,120379,"Ll"),(120380,120405,"Lu"),(120406,120431,"Ll"),(120432,120457,"Lu"),(120458,120485,"Ll"),(120488,120512,"Lu"),(120513,120513,"Sm"),
(120514,120538,"Ll"),(120539,120539,"Sm"),(120540,120545,"Ll"),(120546,120570,"Lu"),(120571,120571,"Sm"),(120572,120596,"Ll"),(120597,120597,"Sm"),
(120598,120603,"Ll"),(120604,120628,"Lu"),(120629,120629,"Sm"),(120630,120654,"Ll"),(120655,120655,"Sm"),(120656,120661,"Ll"),(120662,120686,"Lu"),
(120687,120687,"Sm"),(120688,120712,"Ll"),(120713,120713,"Sm"),(120714,120719,"Ll"),(120720,120744,"Lu"),(120745,120745,"Sm"),(120746,120770,"Ll"),
(120771,120771,"Sm"),(120772,120777,"Ll"),(120778,120778,"Lu"),(120779,120779,"Ll"),(120782,120831,"Nd"),(120832,121343,"So"),(121344,121398,"Mn"),
(121399,121402,"So"),(121403,121452,"Mn"),(121453,121460,"So"),(121461,121461,"Mn"),(121462,121475,"So"),(121476,121476,"Mn"),(121477,121478,"So"),
(121479,121483,"Po"),(121499,121503,"Mn"),(121505,121519,"Mn"),(122624,122633,"Ll"),(122634,122634,"Lo"),(122635,122654,"Ll"),(122661,122666,"Ll"),
(122880,122886,"Mn"),(122888,122904,"Mn"),(122907,122913,"Mn"),(122915,122916,"Mn"),(122918,122922,"Mn"),(122928,122989,"Lm"),(123023,123023,"Mn"),
(123136,123180,"Lo"),(123184,123190,"Mn"),(123191,123197,"Lm"),(123200,123209,"Nd"),(123214,123214,"Lo"),(123215,123215,"So"),(123536,123565,"Lo"),
(123566,123566,"Mn"),(123584,123627,"Lo"),(123628,123631,"Mn"),(123632,123641,"Nd"),(123647,123647,"Sc"),(124112,124138,"Lo"),(124139,124139,"Lm"),
(124140,124143,"Mn"),(124144,124153,"Nd"),(124896,124902,"Lo"),(124904,124907,"Lo"),(124909,124910,"Lo"),(124912,124926,"Lo"),(124928,125124,"Lo"),
(125127,125135,"No"),(125136,125142,"Mn"),(125184,125217,"Lu"),(125218,125251,"Ll"),(125252,125258,"Mn"),(125259,125259,"Lm"),(125264,125273,"Nd"),
(125278,125279,"Po"),(126065,126123,"No"),(126124,126124,"So"),(126125,126127,"No"),(126128,126128,"Sc"),(126129,126132,"No"),(126209,126253,"No"),
(126254,126254,"So"),(126255,126269,"No"),(126464,126467,"Lo"),(126469,126495,"Lo"),(126497,126498,"Lo"),(126500,126500,"Lo"),(126503,126503,"Lo"),
(126505,126514,"Lo"),(126516,126519,"Lo"),(126521,126521,"Lo"),(126523,126523,"Lo"),(126530,126530,"Lo"),(126535,126535,"Lo"),(126537,126537,"Lo"),
(126539,126539,"Lo"),(126541,126543,"Lo"),(126545,126546,"Lo"),(126548,126548,"Lo"),(126551,126551,"Lo"),(126553,126553,"Lo"),(126555,126555,"Lo"),
(126557,126557,"Lo"),(126559,126559,"Lo"),(126561,126562,"Lo"),(126564,126564,"Lo"),(126567,126570,"Lo"),(126572,126578,"Lo"),(126580,126583,"Lo"),
(126585,126588,"Lo"),(126590,126590,"Lo"),(126592,126601,"Lo"),(126603,126619,"Lo"),(126625,126627,"Lo"),(126629,126633,"Lo"),(126635,126651,"Lo"),
(126704,126705,"Sm"),(126976,127019,"So"),(127024,127123,"So"),(127136,127150,"So"),(127153,127167,"So"),(127169,127183,"So"),(127185,127221,"So"),
(127232,127244,"No"),(127245,127405,"So"),(127462,127490,"So"),(127504,127547,"So"),(127552,127560,"So"),(127568,127569,"So"),(127584,127589,"So"),
(127744,127994,"So"),(127995,127999,"Sk"),(128000,128727,"So"),(128732,128748,"So"),(128752,128764,"So"),(128768,128886,"So"),(128891,128985,"So"),
(128992,129003,"So"),(129008,129008,"So"),(129024,129035,"So"),(129040,129095,"So"),(129104,129113,"So"),(129120,129159,"So"),(129168,129197,"So"),
(129200,129201,"So"),(129280,129619,"So"),(129632,129645,"So"),(129648,129660,"So"),(129664,129672,"So"),(129680,129725,"So"),(129727,129733,"So"),
(129742,129755,"So"),(129760,129768,"So"),(129776,129784,"So"),(129792,129938,"So"),(129940,129994,"So"),(130032,130041,"Nd"),(131072,173791,"Lo"),
(173824,177977,"Lo"),(177984,178205,"Lo"),(178208,183969,"Lo"),(183984,191456,"Lo"),(194560,195101,"Lo"),(196608,201546,"Lo"),(201552,205743,"Lo"),
(917505,917505,"Cf"),(917536,917631,"Cf"),(917760,917999,"Mn"),(983040,1048573,"Co"),(1048576,1114109,"Co"),
];
