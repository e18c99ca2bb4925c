// written by tools/hier.py
constexpr int hier_all_2[] = {2, 4};
constexpr int hier_one_2[] = {2, 4};
constexpr int hier_all_3[] = {20, 22, 24, 25, 30, 31, 34, 35, 38, 40, 42, 43, 48, 49, 52, 53};
constexpr int hier_one_3[] = {20, 22, 24, 31, 35, 38, 40, 43, 48, 52};
constexpr int hier_all_4[] = {506, 508, 510, 511, 516, 517, 520, 521, 524, 526, 528, 529, 534, 535, 538, 539, 558, 559, 576, 577, 612, 613, 616, 617, 624, 625, 628, 629, 630, 631, 634, 635, 642, 643, 646, 647, 650, 651, 652, 653, 654, 655, 660, 661, 664, 665, 702, 703, 756, 757, 760, 761, 768, 769, 772, 773, 812, 813, 814, 815, 816, 817, 822, 823, 826, 827, 848, 849, 850, 851, 852, 853, 858, 859, 862, 863, 864, 865, 900, 901, 918, 919, 922, 923, 930, 931, 934, 935, 954, 955, 958, 959, 966, 967, 970, 971, 992, 994, 996, 997, 1002, 1003, 1006, 1007, 1010, 1012, 1014, 1015, 1020, 1021, 1024, 1025, 1044, 1045, 1062, 1063, 1098, 1099, 1102, 1103, 1110, 1111, 1114, 1115, 1116, 1117, 1120, 1121, 1128, 1129, 1132, 1133, 1136, 1137, 1138, 1139, 1140, 1141, 1146, 1147, 1150, 1151, 1188, 1189, 1242, 1243, 1246, 1247, 1254, 1255, 1258, 1259, 1298, 1299, 1300, 1301, 1302, 1303, 1308, 1309, 1312, 1313, 1334, 1335, 1336, 1337, 1338, 1339, 1344, 1345, 1348, 1349, 1350, 1351, 1386, 1387, 1404, 1405, 1408, 1409, 1416, 1417, 1420, 1421, 1440, 1441, 1444, 1445, 1452, 1453, 1456, 1457};
constexpr int hier_one_4[] = {506, 508, 511, 516, 520, 524, 526, 528, 535, 539, 559, 576, 612, 616, 624, 628, 631, 635, 643, 647, 651, 652, 655, 660, 664, 703, 756, 760, 768, 772, 812, 815, 816, 823, 827, 848, 851, 852, 859, 863, 864, 900, 919, 923, 931, 935, 955, 959, 967, 971, 992, 994, 996, 1003, 1007, 1010, 1012, 1015, 1020, 1024, 1044, 1063, 1099, 1103, 1111, 1115, 1116, 1120, 1128, 1132, 1136, 1139, 1140, 1147, 1151, 1188, 1243, 1247, 1255, 1259, 1299, 1300, 1303, 1308, 1312, 1335, 1336, 1339, 1344, 1348, 1351, 1387, 1404, 1408, 1416, 1420, 1440, 1444, 1452, 1456};
