---- MODULE UnicodeTables ----
(* Generated by tools/mktables.py from the Unicode character database.        *)
EXTENDS Integers
\* first code point of each block of ten decimal digits
DigitBlocks == {48, 1632, 1776, 1984, 2406, 2534, 2662, 2790, 2918, 3046, 3174, 3302, 3430, 3558, 3664, 3792, 3872, 4160, 4240, 6112, 6160, 6470, 6608, 6784, 6800, 6992, 7088, 7232, 7248, 42528, 43216, 43264, 43472, 43504, 43600, 44016, 65296, 66720, 68912, 69734, 69872, 69942, 70096, 70384, 70736, 70864, 71248, 71360, 71472, 71904, 72784, 73040, 92768, 92864, 93008, 120782, 120792, 120802, 120812, 120822, 124144, 125264}
WhiteSpace == 9..13 \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
\* case folding of code point c is FoldTable[c + 1], for c < FoldLimit
FoldLimit == 1424
FoldTable == <<
<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<14>>, <<15>>,
<<16>>, <<17>>, <<18>>, <<19>>, <<20>>, <<21>>, <<22>>, <<23>>, <<24>>, <<25>>, <<26>>, <<27>>, <<28>>, <<29>>, <<30>>, <<31>>,
<<32>>, <<33>>, <<34>>, <<35>>, <<36>>, <<37>>, <<38>>, <<39>>, <<40>>, <<41>>, <<42>>, <<43>>, <<44>>, <<45>>, <<46>>, <<47>>,
<<48>>, <<49>>, <<50>>, <<51>>, <<52>>, <<53>>, <<54>>, <<55>>, <<56>>, <<57>>, <<58>>, <<59>>, <<60>>, <<61>>, <<62>>, <<63>>,
<<64>>, <<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>, <<105>>, <<106>>, <<107>>, <<108>>, <<109>>, <<110>>, <<111>>,
<<112>>, <<113>>, <<114>>, <<115>>, <<116>>, <<117>>, <<118>>, <<119>>, <<120>>, <<121>>, <<122>>, <<91>>, <<92>>, <<93>>, <<94>>, <<95>>,
<<96>>, <<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>, <<105>>, <<106>>, <<107>>, <<108>>, <<109>>, <<110>>, <<111>>,
<<112>>, <<113>>, <<114>>, <<115>>, <<116>>, <<117>>, <<118>>, <<119>>, <<120>>, <<121>>, <<122>>, <<123>>, <<124>>, <<125>>, <<126>>, <<127>>,
<<128>>, <<129>>, <<130>>, <<131>>, <<132>>, <<133>>, <<134>>, <<135>>, <<136>>, <<137>>, <<138>>, <<139>>, <<140>>, <<141>>, <<142>>, <<143>>,
<<144>>, <<145>>, <<146>>, <<147>>, <<148>>, <<149>>, <<150>>, <<151>>, <<152>>, <<153>>, <<154>>, <<155>>, <<156>>, <<157>>, <<158>>, <<159>>,
<<160>>, <<161>>, <<162>>, <<163>>, <<164>>, <<165>>, <<166>>, <<167>>, <<168>>, <<169>>, <<170>>, <<171>>, <<172>>, <<173>>, <<174>>, <<175>>,
<<176>>, <<177>>, <<178>>, <<179>>, <<180>>, <<956>>, <<182>>, <<183>>, <<184>>, <<185>>, <<186>>, <<187>>, <<188>>, <<189>>, <<190>>, <<191>>,
<<224>>, <<225>>, <<226>>, <<227>>, <<228>>, <<229>>, <<230>>, <<231>>, <<232>>, <<233>>, <<234>>, <<235>>, <<236>>, <<237>>, <<238>>, <<239>>,
<<240>>, <<241>>, <<242>>, <<243>>, <<244>>, <<245>>, <<246>>, <<215>>, <<248>>, <<249>>, <<250>>, <<251>>, <<252>>, <<253>>, <<254>>, <<115,115>>,
<<224>>, <<225>>, <<226>>, <<227>>, <<228>>, <<229>>, <<230>>, <<231>>, <<232>>, <<233>>, <<234>>, <<235>>, <<236>>, <<237>>, <<238>>, <<239>>,
<<240>>, <<241>>, <<242>>, <<243>>, <<244>>, <<245>>, <<246>>, <<247>>, <<248>>, <<249>>, <<250>>, <<251>>, <<252>>, <<253>>, <<254>>, <<255>>,
<<257>>, <<257>>, <<259>>, <<259>>, <<261>>, <<261>>, <<263>>, <<263>>, <<265>>, <<265>>, <<267>>, <<267>>, <<269>>, <<269>>, <<271>>, <<271>>,
<<273>>, <<273>>, <<275>>, <<275>>, <<277>>, <<277>>, <<279>>, <<279>>, <<281>>, <<281>>, <<283>>, <<283>>, <<285>>, <<285>>, <<287>>, <<287>>,
<<289>>, <<289>>, <<291>>, <<291>>, <<293>>, <<293>>, <<295>>, <<295>>, <<297>>, <<297>>, <<299>>, <<299>>, <<301>>, <<301>>, <<303>>, <<303>>,
<<105,775>>, <<305>>, <<307>>, <<307>>, <<309>>, <<309>>, <<311>>, <<311>>, <<312>>, <<314>>, <<314>>, <<316>>, <<316>>, <<318>>, <<318>>, <<320>>,
<<320>>, <<322>>, <<322>>, <<324>>, <<324>>, <<326>>, <<326>>, <<328>>, <<328>>, <<700,110>>, <<331>>, <<331>>, <<333>>, <<333>>, <<335>>, <<335>>,
<<337>>, <<337>>, <<339>>, <<339>>, <<341>>, <<341>>, <<343>>, <<343>>, <<345>>, <<345>>, <<347>>, <<347>>, <<349>>, <<349>>, <<351>>, <<351>>,
<<353>>, <<353>>, <<355>>, <<355>>, <<357>>, <<357>>, <<359>>, <<359>>, <<361>>, <<361>>, <<363>>, <<363>>, <<365>>, <<365>>, <<367>>, <<367>>,
<<369>>, <<369>>, <<371>>, <<371>>, <<373>>, <<373>>, <<375>>, <<375>>, <<255>>, <<378>>, <<378>>, <<380>>, <<380>>, <<382>>, <<382>>, <<115>>,
<<384>>, <<595>>, <<387>>, <<387>>, <<389>>, <<389>>, <<596>>, <<392>>, <<392>>, <<598>>, <<599>>, <<396>>, <<396>>, <<397>>, <<477>>, <<601>>,
<<603>>, <<402>>, <<402>>, <<608>>, <<611>>, <<405>>, <<617>>, <<616>>, <<409>>, <<409>>, <<410>>, <<411>>, <<623>>, <<626>>, <<414>>, <<629>>,
<<417>>, <<417>>, <<419>>, <<419>>, <<421>>, <<421>>, <<640>>, <<424>>, <<424>>, <<643>>, <<426>>, <<427>>, <<429>>, <<429>>, <<648>>, <<432>>,
<<432>>, <<650>>, <<651>>, <<436>>, <<436>>, <<438>>, <<438>>, <<658>>, <<441>>, <<441>>, <<442>>, <<443>>, <<445>>, <<445>>, <<446>>, <<447>>,
<<448>>, <<449>>, <<450>>, <<451>>, <<454>>, <<454>>, <<454>>, <<457>>, <<457>>, <<457>>, <<460>>, <<460>>, <<460>>, <<462>>, <<462>>, <<464>>,
<<464>>, <<466>>, <<466>>, <<468>>, <<468>>, <<470>>, <<470>>, <<472>>, <<472>>, <<474>>, <<474>>, <<476>>, <<476>>, <<477>>, <<479>>, <<479>>,
<<481>>, <<481>>, <<483>>, <<483>>, <<485>>, <<485>>, <<487>>, <<487>>, <<489>>, <<489>>, <<491>>, <<491>>, <<493>>, <<493>>, <<495>>, <<495>>,
<<106,780>>, <<499>>, <<499>>, <<499>>, <<501>>, <<501>>, <<405>>, <<447>>, <<505>>, <<505>>, <<507>>, <<507>>, <<509>>, <<509>>, <<511>>, <<511>>,
<<513>>, <<513>>, <<515>>, <<515>>, <<517>>, <<517>>, <<519>>, <<519>>, <<521>>, <<521>>, <<523>>, <<523>>, <<525>>, <<525>>, <<527>>, <<527>>,
<<529>>, <<529>>, <<531>>, <<531>>, <<533>>, <<533>>, <<535>>, <<535>>, <<537>>, <<537>>, <<539>>, <<539>>, <<541>>, <<541>>, <<543>>, <<543>>,
<<414>>, <<545>>, <<547>>, <<547>>, <<549>>, <<549>>, <<551>>, <<551>>, <<553>>, <<553>>, <<555>>, <<555>>, <<557>>, <<557>>, <<559>>, <<559>>,
<<561>>, <<561>>, <<563>>, <<563>>, <<564>>, <<565>>, <<566>>, <<567>>, <<568>>, <<569>>, <<11365>>, <<572>>, <<572>>, <<410>>, <<11366>>, <<575>>,
<<576>>, <<578>>, <<578>>, <<384>>, <<649>>, <<652>>, <<583>>, <<583>>, <<585>>, <<585>>, <<587>>, <<587>>, <<589>>, <<589>>, <<591>>, <<591>>,
<<592>>, <<593>>, <<594>>, <<595>>, <<596>>, <<597>>, <<598>>, <<599>>, <<600>>, <<601>>, <<602>>, <<603>>, <<604>>, <<605>>, <<606>>, <<607>>,
<<608>>, <<609>>, <<610>>, <<611>>, <<612>>, <<613>>, <<614>>, <<615>>, <<616>>, <<617>>, <<618>>, <<619>>, <<620>>, <<621>>, <<622>>, <<623>>,
<<624>>, <<625>>, <<626>>, <<627>>, <<628>>, <<629>>, <<630>>, <<631>>, <<632>>, <<633>>, <<634>>, <<635>>, <<636>>, <<637>>, <<638>>, <<639>>,
<<640>>, <<641>>, <<642>>, <<643>>, <<644>>, <<645>>, <<646>>, <<647>>, <<648>>, <<649>>, <<650>>, <<651>>, <<652>>, <<653>>, <<654>>, <<655>>,
<<656>>, <<657>>, <<658>>, <<659>>, <<660>>, <<661>>, <<662>>, <<663>>, <<664>>, <<665>>, <<666>>, <<667>>, <<668>>, <<669>>, <<670>>, <<671>>,
<<672>>, <<673>>, <<674>>, <<675>>, <<676>>, <<677>>, <<678>>, <<679>>, <<680>>, <<681>>, <<682>>, <<683>>, <<684>>, <<685>>, <<686>>, <<687>>,
<<688>>, <<689>>, <<690>>, <<691>>, <<692>>, <<693>>, <<694>>, <<695>>, <<696>>, <<697>>, <<698>>, <<699>>, <<700>>, <<701>>, <<702>>, <<703>>,
<<704>>, <<705>>, <<706>>, <<707>>, <<708>>, <<709>>, <<710>>, <<711>>, <<712>>, <<713>>, <<714>>, <<715>>, <<716>>, <<717>>, <<718>>, <<719>>,
<<720>>, <<721>>, <<722>>, <<723>>, <<724>>, <<725>>, <<726>>, <<727>>, <<728>>, <<729>>, <<730>>, <<731>>, <<732>>, <<733>>, <<734>>, <<735>>,
<<736>>, <<737>>, <<738>>, <<739>>, <<740>>, <<741>>, <<742>>, <<743>>, <<744>>, <<745>>, <<746>>, <<747>>, <<748>>, <<749>>, <<750>>, <<751>>,
<<752>>, <<753>>, <<754>>, <<755>>, <<756>>, <<757>>, <<758>>, <<759>>, <<760>>, <<761>>, <<762>>, <<763>>, <<764>>, <<765>>, <<766>>, <<767>>,
<<768>>, <<769>>, <<770>>, <<771>>, <<772>>, <<773>>, <<774>>, <<775>>, <<776>>, <<777>>, <<778>>, <<779>>, <<780>>, <<781>>, <<782>>, <<783>>,
<<784>>, <<785>>, <<786>>, <<787>>, <<788>>, <<789>>, <<790>>, <<791>>, <<792>>, <<793>>, <<794>>, <<795>>, <<796>>, <<797>>, <<798>>, <<799>>,
<<800>>, <<801>>, <<802>>, <<803>>, <<804>>, <<805>>, <<806>>, <<807>>, <<808>>, <<809>>, <<810>>, <<811>>, <<812>>, <<813>>, <<814>>, <<815>>,
<<816>>, <<817>>, <<818>>, <<819>>, <<820>>, <<821>>, <<822>>, <<823>>, <<824>>, <<825>>, <<826>>, <<827>>, <<828>>, <<829>>, <<830>>, <<831>>,
<<832>>, <<833>>, <<834>>, <<835>>, <<836>>, <<953>>, <<838>>, <<839>>, <<840>>, <<841>>, <<842>>, <<843>>, <<844>>, <<845>>, <<846>>, <<847>>,
<<848>>, <<849>>, <<850>>, <<851>>, <<852>>, <<853>>, <<854>>, <<855>>, <<856>>, <<857>>, <<858>>, <<859>>, <<860>>, <<861>>, <<862>>, <<863>>,
<<864>>, <<865>>, <<866>>, <<867>>, <<868>>, <<869>>, <<870>>, <<871>>, <<872>>, <<873>>, <<874>>, <<875>>, <<876>>, <<877>>, <<878>>, <<879>>,
<<881>>, <<881>>, <<883>>, <<883>>, <<884>>, <<885>>, <<887>>, <<887>>, <<888>>, <<889>>, <<890>>, <<891>>, <<892>>, <<893>>, <<894>>, <<1011>>,
<<896>>, <<897>>, <<898>>, <<899>>, <<900>>, <<901>>, <<940>>, <<903>>, <<941>>, <<942>>, <<943>>, <<907>>, <<972>>, <<909>>, <<973>>, <<974>>,
<<953,776,769>>, <<945>>, <<946>>, <<947>>, <<948>>, <<949>>, <<950>>, <<951>>, <<952>>, <<953>>, <<954>>, <<955>>, <<956>>, <<957>>, <<958>>, <<959>>,
<<960>>, <<961>>, <<930>>, <<963>>, <<964>>, <<965>>, <<966>>, <<967>>, <<968>>, <<969>>, <<970>>, <<971>>, <<940>>, <<941>>, <<942>>, <<943>>,
<<965,776,769>>, <<945>>, <<946>>, <<947>>, <<948>>, <<949>>, <<950>>, <<951>>, <<952>>, <<953>>, <<954>>, <<955>>, <<956>>, <<957>>, <<958>>, <<959>>,
<<960>>, <<961>>, <<963>>, <<963>>, <<964>>, <<965>>, <<966>>, <<967>>, <<968>>, <<969>>, <<970>>, <<971>>, <<972>>, <<973>>, <<974>>, <<983>>,
<<946>>, <<952>>, <<978>>, <<979>>, <<980>>, <<966>>, <<960>>, <<983>>, <<985>>, <<985>>, <<987>>, <<987>>, <<989>>, <<989>>, <<991>>, <<991>>,
<<993>>, <<993>>, <<995>>, <<995>>, <<997>>, <<997>>, <<999>>, <<999>>, <<1001>>, <<1001>>, <<1003>>, <<1003>>, <<1005>>, <<1005>>, <<1007>>, <<1007>>,
<<954>>, <<961>>, <<1010>>, <<1011>>, <<952>>, <<949>>, <<1014>>, <<1016>>, <<1016>>, <<1010>>, <<1019>>, <<1019>>, <<1020>>, <<891>>, <<892>>, <<893>>,
<<1104>>, <<1105>>, <<1106>>, <<1107>>, <<1108>>, <<1109>>, <<1110>>, <<1111>>, <<1112>>, <<1113>>, <<1114>>, <<1115>>, <<1116>>, <<1117>>, <<1118>>, <<1119>>,
<<1072>>, <<1073>>, <<1074>>, <<1075>>, <<1076>>, <<1077>>, <<1078>>, <<1079>>, <<1080>>, <<1081>>, <<1082>>, <<1083>>, <<1084>>, <<1085>>, <<1086>>, <<1087>>,
<<1088>>, <<1089>>, <<1090>>, <<1091>>, <<1092>>, <<1093>>, <<1094>>, <<1095>>, <<1096>>, <<1097>>, <<1098>>, <<1099>>, <<1100>>, <<1101>>, <<1102>>, <<1103>>,
<<1072>>, <<1073>>, <<1074>>, <<1075>>, <<1076>>, <<1077>>, <<1078>>, <<1079>>, <<1080>>, <<1081>>, <<1082>>, <<1083>>, <<1084>>, <<1085>>, <<1086>>, <<1087>>,
<<1088>>, <<1089>>, <<1090>>, <<1091>>, <<1092>>, <<1093>>, <<1094>>, <<1095>>, <<1096>>, <<1097>>, <<1098>>, <<1099>>, <<1100>>, <<1101>>, <<1102>>, <<1103>>,
<<1104>>, <<1105>>, <<1106>>, <<1107>>, <<1108>>, <<1109>>, <<1110>>, <<1111>>, <<1112>>, <<1113>>, <<1114>>, <<1115>>, <<1116>>, <<1117>>, <<1118>>, <<1119>>,
<<1121>>, <<1121>>, <<1123>>, <<1123>>, <<1125>>, <<1125>>, <<1127>>, <<1127>>, <<1129>>, <<1129>>, <<1131>>, <<1131>>, <<1133>>, <<1133>>, <<1135>>, <<1135>>,
<<1137>>, <<1137>>, <<1139>>, <<1139>>, <<1141>>, <<1141>>, <<1143>>, <<1143>>, <<1145>>, <<1145>>, <<1147>>, <<1147>>, <<1149>>, <<1149>>, <<1151>>, <<1151>>,
<<1153>>, <<1153>>, <<1154>>, <<1155>>, <<1156>>, <<1157>>, <<1158>>, <<1159>>, <<1160>>, <<1161>>, <<1163>>, <<1163>>, <<1165>>, <<1165>>, <<1167>>, <<1167>>,
<<1169>>, <<1169>>, <<1171>>, <<1171>>, <<1173>>, <<1173>>, <<1175>>, <<1175>>, <<1177>>, <<1177>>, <<1179>>, <<1179>>, <<1181>>, <<1181>>, <<1183>>, <<1183>>,
<<1185>>, <<1185>>, <<1187>>, <<1187>>, <<1189>>, <<1189>>, <<1191>>, <<1191>>, <<1193>>, <<1193>>, <<1195>>, <<1195>>, <<1197>>, <<1197>>, <<1199>>, <<1199>>,
<<1201>>, <<1201>>, <<1203>>, <<1203>>, <<1205>>, <<1205>>, <<1207>>, <<1207>>, <<1209>>, <<1209>>, <<1211>>, <<1211>>, <<1213>>, <<1213>>, <<1215>>, <<1215>>,
<<1231>>, <<1218>>, <<1218>>, <<1220>>, <<1220>>, <<1222>>, <<1222>>, <<1224>>, <<1224>>, <<1226>>, <<1226>>, <<1228>>, <<1228>>, <<1230>>, <<1230>>, <<1231>>,
<<1233>>, <<1233>>, <<1235>>, <<1235>>, <<1237>>, <<1237>>, <<1239>>, <<1239>>, <<1241>>, <<1241>>, <<1243>>, <<1243>>, <<1245>>, <<1245>>, <<1247>>, <<1247>>,
<<1249>>, <<1249>>, <<1251>>, <<1251>>, <<1253>>, <<1253>>, <<1255>>, <<1255>>, <<1257>>, <<1257>>, <<1259>>, <<1259>>, <<1261>>, <<1261>>, <<1263>>, <<1263>>,
<<1265>>, <<1265>>, <<1267>>, <<1267>>, <<1269>>, <<1269>>, <<1271>>, <<1271>>, <<1273>>, <<1273>>, <<1275>>, <<1275>>, <<1277>>, <<1277>>, <<1279>>, <<1279>>,
<<1281>>, <<1281>>, <<1283>>, <<1283>>, <<1285>>, <<1285>>, <<1287>>, <<1287>>, <<1289>>, <<1289>>, <<1291>>, <<1291>>, <<1293>>, <<1293>>, <<1295>>, <<1295>>,
<<1297>>, <<1297>>, <<1299>>, <<1299>>, <<1301>>, <<1301>>, <<1303>>, <<1303>>, <<1305>>, <<1305>>, <<1307>>, <<1307>>, <<1309>>, <<1309>>, <<1311>>, <<1311>>,
<<1313>>, <<1313>>, <<1315>>, <<1315>>, <<1317>>, <<1317>>, <<1319>>, <<1319>>, <<1321>>, <<1321>>, <<1323>>, <<1323>>, <<1325>>, <<1325>>, <<1327>>, <<1327>>,
<<1328>>, <<1377>>, <<1378>>, <<1379>>, <<1380>>, <<1381>>, <<1382>>, <<1383>>, <<1384>>, <<1385>>, <<1386>>, <<1387>>, <<1388>>, <<1389>>, <<1390>>, <<1391>>,
<<1392>>, <<1393>>, <<1394>>, <<1395>>, <<1396>>, <<1397>>, <<1398>>, <<1399>>, <<1400>>, <<1401>>, <<1402>>, <<1403>>, <<1404>>, <<1405>>, <<1406>>, <<1407>>,
<<1408>>, <<1409>>, <<1410>>, <<1411>>, <<1412>>, <<1413>>, <<1414>>, <<1367>>, <<1368>>, <<1369>>, <<1370>>, <<1371>>, <<1372>>, <<1373>>, <<1374>>, <<1375>>,
<<1376>>, <<1377>>, <<1378>>, <<1379>>, <<1380>>, <<1381>>, <<1382>>, <<1383>>, <<1384>>, <<1385>>, <<1386>>, <<1387>>, <<1388>>, <<1389>>, <<1390>>, <<1391>>,
<<1392>>, <<1393>>, <<1394>>, <<1395>>, <<1396>>, <<1397>>, <<1398>>, <<1399>>, <<1400>>, <<1401>>, <<1402>>, <<1403>>, <<1404>>, <<1405>>, <<1406>>, <<1407>>,
<<1408>>, <<1409>>, <<1410>>, <<1411>>, <<1412>>, <<1413>>, <<1414>>, <<1381,1410>>, <<1416>>, <<1417>>, <<1418>>, <<1419>>, <<1420>>, <<1421>>, <<1422>>, <<1423>>
>>
\* folding of the code points from FoldLimit on: <<first, last, step, distance>>, and those that fold to several
FoldRanges == {<<4256,4293,1,7264>>, <<4295,4295,1,7264>>, <<4301,4301,1,7264>>, <<5112,5117,1,-8>>, <<7296,7296,1,-6222>>, <<7297,7297,1,-6221>>, <<7298,7298,1,-6212>>, <<7299,7300,1,-6210>>,
<<7301,7301,1,-6211>>, <<7302,7302,1,-6204>>, <<7303,7303,1,-6180>>, <<7304,7304,1,35267>>, <<7312,7354,1,-3008>>, <<7357,7359,1,-3008>>, <<7680,7828,2,1>>, <<7835,7835,1,-58>>,
<<7840,7934,2,1>>, <<7944,7951,1,-8>>, <<7960,7965,1,-8>>, <<7976,7983,1,-8>>, <<7992,7999,1,-8>>, <<8008,8013,1,-8>>, <<8025,8031,2,-8>>, <<8040,8047,1,-8>>,
<<8120,8121,1,-8>>, <<8122,8123,1,-74>>, <<8126,8126,1,-7173>>, <<8136,8139,1,-86>>, <<8152,8153,1,-8>>, <<8154,8155,1,-100>>, <<8168,8169,1,-8>>, <<8170,8171,1,-112>>,
<<8172,8172,1,-7>>, <<8184,8185,1,-128>>, <<8186,8187,1,-126>>, <<8486,8486,1,-7517>>, <<8490,8490,1,-8383>>, <<8491,8491,1,-8262>>, <<8498,8498,1,28>>, <<8544,8559,1,16>>,
<<8579,8579,1,1>>, <<9398,9423,1,26>>, <<11264,11310,1,48>>, <<11360,11360,1,1>>, <<11362,11362,1,-10743>>, <<11363,11363,1,-3814>>, <<11364,11364,1,-10727>>, <<11367,11371,2,1>>,
<<11373,11373,1,-10780>>, <<11374,11374,1,-10749>>, <<11375,11375,1,-10783>>, <<11376,11376,1,-10782>>, <<11378,11378,1,1>>, <<11381,11381,1,1>>, <<11390,11391,1,-10815>>, <<11392,11490,2,1>>,
<<11499,11501,2,1>>, <<11506,11506,1,1>>, <<42560,42604,2,1>>, <<42624,42650,2,1>>, <<42786,42798,2,1>>, <<42802,42862,2,1>>, <<42873,42875,2,1>>, <<42877,42877,1,-35332>>,
<<42878,42886,2,1>>, <<42891,42891,1,1>>, <<42893,42893,1,-42280>>, <<42896,42898,2,1>>, <<42902,42920,2,1>>, <<42922,42922,1,-42308>>, <<42923,42923,1,-42319>>, <<42924,42924,1,-42315>>,
<<42925,42925,1,-42305>>, <<42926,42926,1,-42308>>, <<42928,42928,1,-42258>>, <<42929,42929,1,-42282>>, <<42930,42930,1,-42261>>, <<42931,42931,1,928>>, <<42932,42942,2,1>>, <<42946,42946,1,1>>,
<<42948,42948,1,-48>>, <<42949,42949,1,-42307>>, <<42950,42950,1,-35384>>, <<43888,43967,1,-38864>>, <<65313,65338,1,32>>, <<66560,66599,1,40>>, <<66736,66771,1,40>>, <<68736,68786,1,64>>,
<<71840,71871,1,32>>, <<93760,93791,1,32>>, <<125184,125217,1,34>>}
FoldMulti == <<<<7830,<<104,817>>>>, <<7831,<<116,776>>>>, <<7832,<<119,778>>>>, <<7833,<<121,778>>>>, <<7834,<<97,702>>>>, <<7838,<<115,115>>>>, <<8016,<<965,787>>>>, <<8018,<<965,787,768>>>>,
<<8020,<<965,787,769>>>>, <<8022,<<965,787,834>>>>, <<8064,<<7936,953>>>>, <<8065,<<7937,953>>>>, <<8066,<<7938,953>>>>, <<8067,<<7939,953>>>>, <<8068,<<7940,953>>>>, <<8069,<<7941,953>>>>,
<<8070,<<7942,953>>>>, <<8071,<<7943,953>>>>, <<8072,<<7936,953>>>>, <<8073,<<7937,953>>>>, <<8074,<<7938,953>>>>, <<8075,<<7939,953>>>>, <<8076,<<7940,953>>>>, <<8077,<<7941,953>>>>,
<<8078,<<7942,953>>>>, <<8079,<<7943,953>>>>, <<8080,<<7968,953>>>>, <<8081,<<7969,953>>>>, <<8082,<<7970,953>>>>, <<8083,<<7971,953>>>>, <<8084,<<7972,953>>>>, <<8085,<<7973,953>>>>,
<<8086,<<7974,953>>>>, <<8087,<<7975,953>>>>, <<8088,<<7968,953>>>>, <<8089,<<7969,953>>>>, <<8090,<<7970,953>>>>, <<8091,<<7971,953>>>>, <<8092,<<7972,953>>>>, <<8093,<<7973,953>>>>,
<<8094,<<7974,953>>>>, <<8095,<<7975,953>>>>, <<8096,<<8032,953>>>>, <<8097,<<8033,953>>>>, <<8098,<<8034,953>>>>, <<8099,<<8035,953>>>>, <<8100,<<8036,953>>>>, <<8101,<<8037,953>>>>,
<<8102,<<8038,953>>>>, <<8103,<<8039,953>>>>, <<8104,<<8032,953>>>>, <<8105,<<8033,953>>>>, <<8106,<<8034,953>>>>, <<8107,<<8035,953>>>>, <<8108,<<8036,953>>>>, <<8109,<<8037,953>>>>,
<<8110,<<8038,953>>>>, <<8111,<<8039,953>>>>, <<8114,<<8048,953>>>>, <<8115,<<945,953>>>>, <<8116,<<940,953>>>>, <<8118,<<945,834>>>>, <<8119,<<945,834,953>>>>, <<8124,<<945,953>>>>,
<<8130,<<8052,953>>>>, <<8131,<<951,953>>>>, <<8132,<<942,953>>>>, <<8134,<<951,834>>>>, <<8135,<<951,834,953>>>>, <<8140,<<951,953>>>>, <<8146,<<953,776,768>>>>, <<8147,<<953,776,769>>>>,
<<8150,<<953,834>>>>, <<8151,<<953,776,834>>>>, <<8162,<<965,776,768>>>>, <<8163,<<965,776,769>>>>, <<8164,<<961,787>>>>, <<8166,<<965,834>>>>, <<8167,<<965,776,834>>>>, <<8178,<<8060,953>>>>,
<<8179,<<969,953>>>>, <<8180,<<974,953>>>>, <<8182,<<969,834>>>>, <<8183,<<969,834,953>>>>, <<8188,<<969,953>>>>, <<64256,<<102,102>>>>, <<64257,<<102,105>>>>, <<64258,<<102,108>>>>,
<<64259,<<102,102,105>>>>, <<64260,<<102,102,108>>>>, <<64261,<<115,116>>>>, <<64262,<<115,116>>>>, <<64275,<<1396,1398>>>>, <<64276,<<1396,1381>>>>, <<64277,<<1396,1387>>>>, <<64278,<<1406,1398>>>>,
<<64279,<<1396,1389>>>>>>
====
