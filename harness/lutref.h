// reference values f(i / DEN) * 2^30 for i = LO..HI, computed with 60-digit decimals (tools: DESIGN.md, C09)
#pragma once
#include <cstdint>
static const int TANH_LO = -172, TANH_HI = 171, TANH_DEN = 32;
static const int64_t TANH_T[] = {-1073695771, -1073692801, -1073689640, -1073686274, -1073682692, -1073678878, -1073674818, -1073670497, -1073665897, -1073661000, -1073655788, -1073650239, -1073644333, -1073638045, -1073631353, -1073624228, -1073616644, -1073608572, -1073599978, -1073590830, -1073581093, -1073570728, -1073559694, -1073547948, -1073535446, -1073522137, -1073507970, -1073492889, -1073476836, -1073459748, -1073441558, -1073422196, -1073401585, -1073379645, -1073356291, -1073331431, -1073304968, -1073276799, -1073246815, -1073214897, -1073180922, -1073144757, -1073106261, -1073065284, -1073021665, -1072975235, -1072925813, -1072873207, -1072817210, -1072757605, -1072694159, -1072626625, -1072554741, -1072478226, -1072396782, -1072310092, -1072217818, -1072119603, -1072015063, -1071903791, -1071785356, -1071659298, -1071525125, -1071382317, -1071230320, -1071068543, -1070896360, -1070713102, -1070518060, -1070310477, -1070089550, -1069854425, -1069604193, -1069337886, -1069054476, -1068752870, -1068431906, -1068090347, -1067726879, -1067340105, -1066928539, -1066490604, -1066024621, -1065528808, -1065001270, -1064439994, -1063842843, -1063207545, -1062531689, -1061812714, -1061047900, -1060234362, -1059369036, -1058448672, -1057469822, -1056428829, -1055321814, -1054144667, -1052893030, -1051562285, -1050147544, -1048643629, -1047045057, -1045346031, -1043540415, -1041621725, -1039583108, -1037417324, -1035116732, -1032673268, -1030078428, -1027323250, -1024398298, -1021293637, -1017998824, -1014502881, -1010794288, -1006860957, -1002690226, -998268841, -993582944, -988618065, -983359117, -977790386, -971895537, -965657614, -959059047, -952081667, -944706725, -936914916, -928686409, -920000894, -910837623, -901175474, -890993016, -880268593, -868980407, -857106631, -844625518, -831515533, -817755498, -803324746, -788203292, -772372023, -755812887, -738509109, -720445410, -701608235, -681985995, -661569304, -640351229, -618327534, -595496917, -571861244, -547425766, -522199322, -496194519, -469427884, -441919982, -413695509, -384783327, -355216470, -325032097, -294271390, -262979411, -231204897, -199000008, -166420030, -133523019, -100369417, -67021619, -33543514, 0, 33543514, 67021619, 100369417, 133523019, 166420030, 199000008, 231204897, 262979411, 294271390, 325032097, 355216470, 384783327, 413695509, 441919982, 469427884, 496194519, 522199322, 547425766, 571861244, 595496917, 618327534, 640351229, 661569304, 681985995, 701608235, 720445410, 738509109, 755812887, 772372023, 788203292, 803324746, 817755498, 831515533, 844625518, 857106631, 868980407, 880268593, 890993016, 901175474, 910837623, 920000894, 928686409, 936914916, 944706725, 952081667, 959059047, 965657614, 971895537, 977790386, 983359117, 988618065, 993582944, 998268841, 1002690226, 1006860957, 1010794288, 1014502881, 1017998824, 1021293637, 1024398298, 1027323250, 1030078428, 1032673268, 1035116732, 1037417324, 1039583108, 1041621725, 1043540415, 1045346031, 1047045057, 1048643629, 1050147544, 1051562285, 1052893030, 1054144667, 1055321814, 1056428829, 1057469822, 1058448672, 1059369036, 1060234362, 1061047900, 1061812714, 1062531689, 1063207545, 1063842843, 1064439994, 1065001270, 1065528808, 1066024621, 1066490604, 1066928539, 1067340105, 1067726879, 1068090347, 1068431906, 1068752870, 1069054476, 1069337886, 1069604193, 1069854425, 1070089550, 1070310477, 1070518060, 1070713102, 1070896360, 1071068543, 1071230320, 1071382317, 1071525125, 1071659298, 1071785356, 1071903791, 1072015063, 1072119603, 1072217818, 1072310092, 1072396782, 1072478226, 1072554741, 1072626625, 1072694159, 1072757605, 1072817210, 1072873207, 1072925813, 1072975235, 1073021665, 1073065284, 1073106261, 1073144757, 1073180922, 1073214897, 1073246815, 1073276799, 1073304968, 1073331431, 1073356291, 1073379645, 1073401585, 1073422196, 1073441558, 1073459748, 1073476836, 1073492889, 1073507970, 1073522137, 1073535446, 1073547948, 1073559694, 1073570728, 1073581093, 1073590830, 1073599978, 1073608572, 1073616644, 1073624228, 1073631353, 1073638045, 1073644333, 1073650239, 1073655788, 1073661000, 1073665897, 1073670497, 1073674818, 1073678878, 1073682692, 1073686274, 1073689640, 1073692801};
static const int SIGM_LO = -160, SIGM_HI = 160, SIGM_DEN = 16;
static const int64_t SIGM_T[] = {48746, 51889, 55236, 58798, 62590, 66626, 70923, 75497, 80366, 85548, 91065, 96938, 103189, 109844, 116927, 124467, 132494, 141038, 150133, 159814, 170120, 181090, 192767, 205197, 218428, 232512, 247505, 263463, 280451, 298533, 317782, 338270, 360079, 383294, 408005, 434309, 462307, 492110, 523833, 557599, 593542, 631799, 672521, 715866, 762003, 811111, 863381, 919016, 978234, 1041263, 1108350, 1179754, 1255752, 1336640, 1422732, 1514361, 1611882, 1715674, 1826137, 1943699, 2068816, 2201969, 2343674, 2494477, 2654959, 2825738, 3007472, 3200860, 3406642, 3625610, 3858601, 4106508, 4370277, 4650915, 4949490, 5267139, 5605067, 5964555, 6346962, 6753731, 7186394, 7646576, 8136001, 8656497, 9210005, 9798579, 10424397, 11089769, 11797140, 12549098, 13348383, 14197897, 15100705, 16060049, 17079358, 18162250, 19312546, 20534278, 21831698, 23209287, 24671763, 26224093, 27871500, 29619471, 31473768, 33440433, 35525799, 37736491, 40079440, 42561879, 45191354, 47975719, 50923144, 54042105, 57341389, 60830078, 64517549, 68413454, 72527707, 76870465, 81452101, 86283175, 91374404, 96736616, 102380708, 108317596, 114558153, 121113145, 127993163, 135208539, 142769266, 150684901, 158964468, 167616357, 176648207, 186066794, 195877915, 206086260, 216695297, 227707145, 239122453, 250940290, 263158029, 275771251, 288773652, 302156970, 315910921, 330023158, 344479249, 359262677, 374354864, 389735217, 405381206, 421268464, 437370908, 453660897, 470109403, 486686203, 503360103, 520099155, 536870912, 553642669, 570381721, 587055621, 603632421, 620080927, 636370916, 652473360, 668360618, 684006607, 699386960, 714479147, 729262575, 743718666, 757830903, 771584854, 784968172, 797970573, 810583795, 822801534, 834619371, 846034679, 857046527, 867655564, 877863909, 887675030, 897093617, 906125467, 914777356, 923056923, 930972558, 938533285, 945748661, 952628679, 959183671, 965424228, 971361116, 977005208, 982367420, 987458649, 992289723, 996871359, 1001214117, 1005328370, 1009224275, 1012911746, 1016400435, 1019699719, 1022818680, 1025766105, 1028550470, 1031179945, 1033662384, 1036005333, 1038216025, 1040301391, 1042268056, 1044122353, 1045870324, 1047517731, 1049070061, 1050532537, 1051910126, 1053207546, 1054429278, 1055579574, 1056662466, 1057681775, 1058641119, 1059543927, 1060393441, 1061192726, 1061944684, 1062652055, 1063317427, 1063943245, 1064531819, 1065085327, 1065605823, 1066095248, 1066555430, 1066988093, 1067394862, 1067777269, 1068136757, 1068474685, 1068792334, 1069090909, 1069371547, 1069635316, 1069883223, 1070116214, 1070335182, 1070540964, 1070734352, 1070916086, 1071086865, 1071247347, 1071398150, 1071539855, 1071673008, 1071798125, 1071915687, 1072026150, 1072129942, 1072227463, 1072319092, 1072405184, 1072486072, 1072562070, 1072633474, 1072700561, 1072763590, 1072822808, 1072878443, 1072930713, 1072979821, 1073025958, 1073069303, 1073110025, 1073148282, 1073184225, 1073217991, 1073249714, 1073279517, 1073307515, 1073333819, 1073358530, 1073381745, 1073403554, 1073424042, 1073443291, 1073461373, 1073478361, 1073494319, 1073509312, 1073523396, 1073536627, 1073549057, 1073560734, 1073571704, 1073582010, 1073591691, 1073600786, 1073609330, 1073617357, 1073624897, 1073631980, 1073638635, 1073644886, 1073650759, 1073656276, 1073661458, 1073666327, 1073670901, 1073675198, 1073679234, 1073683026, 1073686588, 1073689935, 1073693078};
static const int EXPN_LO = -356, EXPN_HI = 0, EXPN_DEN = 32;
static const int64_t EXPN_T[] = {15826, 16328, 16847, 17382, 17933, 18503, 19090, 19696, 20321, 20966, 21632, 22318, 23027, 23758, 24512, 25290, 26093, 26921, 27776, 28657, 29567, 30506, 31474, 32473, 33504, 34567, 35665, 36797, 37965, 39170, 40413, 41696, 43020, 44385, 45794, 47248, 48748, 50295, 51892, 53539, 55238, 56992, 58801, 60668, 62593, 64580, 66630, 68745, 70928, 73179, 75502, 77899, 80372, 82923, 85555, 88271, 91073, 93964, 96947, 100024, 103199, 106475, 109855, 113342, 116940, 120652, 124482, 128433, 132510, 136717, 141056, 145534, 150154, 154920, 159838, 164912, 170147, 175548, 181120, 186869, 192801, 198921, 205236, 211751, 218472, 225408, 232563, 239945, 247562, 255420, 263528, 271893, 280524, 289429, 298616, 308096, 317876, 327966, 338377, 349118, 360200, 371634, 383431, 395603, 408160, 421117, 434484, 448276, 462506, 477188, 492335, 507964, 524088, 540725, 557889, 575598, 593870, 612721, 632171, 652238, 672943, 694304, 716344, 739083, 762544, 786750, 811724, 837491, 864075, 891504, 919804, 949001, 979126, 1010207, 1042274, 1075359, 1109495, 1144714, 1181051, 1218542, 1257222, 1297131, 1338306, 1380789, 1424620, 1469842, 1516500, 1564639, 1614306, 1665549, 1718419, 1772968, 1829248, 1887314, 1947224, 2009036, 2072809, 2138607, 2206494, 2276536, 2348801, 2423360, 2500285, 2579653, 2661540, 2746026, 2833194, 2923130, 3015920, 3111655, 3210430, 3312340, 3417485, 3525967, 3637894, 3753373, 3872518, 3995445, 4122274, 4253129, 4388137, 4527432, 4671148, 4819426, 4972411, 5130252, 5293104, 5461125, 5634480, 5813338, 5997873, 6188266, 6384702, 6587374, 6796480, 7012224, 7234816, 7464473, 7701421, 7945890, 8198120, 8458356, 8726853, 9003873, 9289687, 9584573, 9888820, 10202725, 10526594, 10860744, 11205501, 11561202, 11928194, 12306836, 12697497, 13100558, 13516415, 13945472, 14388149, 14844878, 15316105, 15802290, 16303908, 16821450, 17355420, 17906340, 18474749, 19061200, 19666268, 20290542, 20934633, 21599169, 22284801, 22992196, 23722047, 24475065, 25251987, 26053571, 26880601, 27733882, 28614250, 29522564, 30459711, 31426606, 32424194, 33453448, 34515374, 35611010, 36741425, 37907723, 39111043, 40352561, 41633489, 42955077, 44318618, 45725442, 47176923, 48674480, 50219573, 51813714, 53458458, 55155411, 56906232, 58712630, 60576369, 62499269, 64483209, 66530125, 68642018, 70820950, 73069048, 75388509, 77781597, 80250650, 82798079, 85426372, 88138096, 90935900, 93822515, 96800761, 99873547, 103043874, 106314838, 109689633, 113171556, 116764006, 120470494, 124294638, 128240173, 132310953, 136510954, 140844277, 145315154, 149927952, 154687176, 159597474, 164663642, 169890627, 175283534, 180847631, 186588351, 192511301, 198622266, 204927213, 211432301, 218143883, 225068513, 232212955, 239584185, 247189404, 255036038, 263131750, 271484449, 280102290, 288993691, 298167336, 307632183, 317397477, 327472754, 337867855, 348592932, 359658460, 371075245, 382854438, 395007542, 407546428, 420483340, 433830914, 447602185, 461810604, 476470046, 491594829, 507199724, 523299971, 539911296, 557049920, 574732583, 592976553, 611799650, 631220255, 651257337, 671930464, 693259826, 715266256, 737971244, 761396966, 785566300, 810502851, 836230973, 862775794, 890163238, 918420052, 947573834, 977653056, 1008687096, 1040706261, 1073741824};
static const int ISQ_LO = 32, ISQ_HI = 128, ISQ_DEN = 1;
static const int64_t ISQ_T[] = {189812531, 186914460, 184145204, 181495494, 178956971, 176522068, 174183925, 171936296, 169773489, 167690300, 165681960, 163744093, 161872671, 160063981, 158314595, 156621342, 154981283, 153391689, 151850025, 150353929, 148901200, 147489782, 146117755, 144783318, 143484787, 142220579, 140989209, 139789279, 138619473, 137478553, 136365348, 135278754, 134217728, 133181282, 132168482, 131178442, 130210322, 129263325, 128336695, 127429710, 126541687, 125671975, 124819952, 123985026, 123166634, 122364237, 121577321, 120805393, 120047985, 119304647, 118574948, 117858477, 117154838, 116463653, 115784559, 115117207, 114461263, 113816406, 113182326, 112558727, 111945324, 111341840, 110748013, 110163587, 109588316, 109021964, 108464304, 107915114, 107374182, 106841305, 106316283, 105798926, 105289048, 104786472, 104291025, 103802540, 103320855, 102845814, 102377266, 101915064, 101459066, 101009134, 100565136, 100126941, 99694426, 99267467, 98845947, 98429752, 98018770, 97612893, 97212017, 96816040, 96424862, 96038388, 95656524, 95279180, 94906266};
