/* Cost of a symbol of range r (1 to 1024), in 1/2048 bit, exact:
 * the lowest b such as 2^b r^2048 >= 1024^2048 */
static const uint16_t range_cost[1025] = { 0xffff,
20480, 18432, 17234, 16384, 15725, 15186, 14731, 14336, 13988, 13677, 13396, 13138,
12902, 12683, 12479, 12288, 12109, 11940, 11781, 11629, 11485, 11348, 11216, 11090,
10970, 10854, 10742, 10635, 10531, 10431, 10334, 10240, 10150, 10061, 9976, 9892,
9812, 9733, 9656, 9581, 9508, 9437, 9368, 9300, 9233, 9168, 9105, 9042,
8982, 8922, 8863, 8806, 8750, 8694, 8640, 8587, 8535, 8483, 8433, 8383,
8334, 8286, 8239, 8192, 8147, 8102, 8057, 8013, 7970, 7928, 7886, 7844,
7804, 7764, 7724, 7685, 7646, 7608, 7570, 7533, 7496, 7460, 7424, 7389,
7354, 7320, 7285, 7252, 7218, 7185, 7153, 7120, 7088, 7057, 7025, 6994,
6964, 6934, 6904, 6874, 6844, 6815, 6787, 6758, 6730, 6702, 6674, 6646,
6619, 6592, 6566, 6539, 6513, 6487, 6461, 6435, 6410, 6385, 6360, 6335,
6311, 6286, 6262, 6238, 6215, 6191, 6168, 6144, 6122, 6099, 6076, 6054,
6031, 6009, 5987, 5965, 5944, 5922, 5901, 5880, 5859, 5838, 5817, 5796,
5776, 5756, 5736, 5716, 5696, 5676, 5656, 5637, 5617, 5598, 5579, 5560,
5541, 5522, 5504, 5485, 5467, 5448, 5430, 5412, 5394, 5376, 5359, 5341,
5323, 5306, 5289, 5272, 5254, 5237, 5220, 5204, 5187, 5170, 5154, 5137,
5121, 5105, 5088, 5072, 5056, 5040, 5024, 5009, 4993, 4977, 4962, 4946,
4931, 4916, 4901, 4886, 4871, 4856, 4841, 4826, 4811, 4796, 4782, 4767,
4753, 4739, 4724, 4710, 4696, 4682, 4668, 4654, 4640, 4626, 4612, 4598,
4585, 4571, 4558, 4544, 4531, 4518, 4504, 4491, 4478, 4465, 4452, 4439,
4426, 4413, 4400, 4387, 4375, 4362, 4349, 4337, 4324, 4312, 4300, 4287,
4275, 4263, 4250, 4238, 4226, 4214, 4202, 4190, 4178, 4167, 4155, 4143,
4131, 4120, 4108, 4096, 4085, 4074, 4062, 4051, 4039, 4028, 4017, 4006,
3994, 3983, 3972, 3961, 3950, 3939, 3928, 3917, 3907, 3896, 3885, 3874,
3864, 3853, 3842, 3832, 3821, 3811, 3800, 3790, 3779, 3769, 3759, 3748,
3738, 3728, 3718, 3708, 3698, 3688, 3678, 3668, 3658, 3648, 3638, 3628,
3618, 3608, 3598, 3589, 3579, 3569, 3560, 3550, 3541, 3531, 3521, 3512,
3503, 3493, 3484, 3474, 3465, 3456, 3446, 3437, 3428, 3419, 3410, 3400,
3391, 3382, 3373, 3364, 3355, 3346, 3337, 3328, 3320, 3311, 3302, 3293,
3284, 3275, 3267, 3258, 3249, 3241, 3232, 3224, 3215, 3206, 3198, 3189,
3181, 3172, 3164, 3156, 3147, 3139, 3131, 3122, 3114, 3106, 3097, 3089,
3081, 3073, 3065, 3057, 3048, 3040, 3032, 3024, 3016, 3008, 3000, 2992,
2984, 2976, 2969, 2961, 2953, 2945, 2937, 2929, 2922, 2914, 2906, 2898,
2891, 2883, 2876, 2868, 2860, 2853, 2845, 2838, 2830, 2823, 2815, 2808,
2800, 2793, 2785, 2778, 2771, 2763, 2756, 2748, 2741, 2734, 2727, 2719,
2712, 2705, 2698, 2691, 2683, 2676, 2669, 2662, 2655, 2648, 2641, 2634,
2627, 2620, 2613, 2606, 2599, 2592, 2585, 2578, 2571, 2564, 2557, 2550,
2544, 2537, 2530, 2523, 2516, 2510, 2503, 2496, 2490, 2483, 2476, 2470,
2463, 2456, 2450, 2443, 2436, 2430, 2423, 2417, 2410, 2404, 2397, 2391,
2384, 2378, 2371, 2365, 2359, 2352, 2346, 2339, 2333, 2327, 2320, 2314,
2308, 2301, 2295, 2289, 2283, 2276, 2270, 2264, 2258, 2252, 2245, 2239,
2233, 2227, 2221, 2215, 2209, 2202, 2196, 2190, 2184, 2178, 2172, 2166,
2160, 2154, 2148, 2142, 2136, 2130, 2124, 2119, 2113, 2107, 2101, 2095,
2089, 2083, 2077, 2072, 2066, 2060, 2054, 2048, 2043, 2037, 2031, 2026,
2020, 2014, 2008, 2003, 1997, 1991, 1986, 1980, 1974, 1969, 1963, 1958,
1952, 1946, 1941, 1935, 1930, 1924, 1919, 1913, 1908, 1902, 1897, 1891,
1886, 1880, 1875, 1869, 1864, 1859, 1853, 1848, 1842, 1837, 1832, 1826,
1821, 1816, 1810, 1805, 1800, 1794, 1789, 1784, 1778, 1773, 1768, 1763,
1757, 1752, 1747, 1742, 1737, 1731, 1726, 1721, 1716, 1711, 1706, 1700,
1695, 1690, 1685, 1680, 1675, 1670, 1665, 1660, 1655, 1650, 1645, 1640,
1635, 1630, 1625, 1620, 1615, 1610, 1605, 1600, 1595, 1590, 1585, 1580,
1575, 1570, 1565, 1560, 1555, 1550, 1546, 1541, 1536, 1531, 1526, 1521,
1517, 1512, 1507, 1502, 1497, 1493, 1488, 1483, 1478, 1473, 1469, 1464,
1459, 1455, 1450, 1445, 1440, 1436, 1431, 1426, 1422, 1417, 1412, 1408,
1403, 1398, 1394, 1389, 1385, 1380, 1375, 1371, 1366, 1362, 1357, 1352,
1348, 1343, 1339, 1334, 1330, 1325, 1321, 1316, 1312, 1307, 1303, 1298,
1294, 1289, 1285, 1280, 1276, 1272, 1267, 1263, 1258, 1254, 1249, 1245,
1241, 1236, 1232, 1227, 1223, 1219, 1214, 1210, 1206, 1201, 1197, 1193,
1188, 1184, 1180, 1176, 1171, 1167, 1163, 1158, 1154, 1150, 1146, 1141,
1137, 1133, 1129, 1124, 1120, 1116, 1112, 1108, 1103, 1099, 1095, 1091,
1087, 1083, 1078, 1074, 1070, 1066, 1062, 1058, 1054, 1049, 1045, 1041,
1037, 1033, 1029, 1025, 1021, 1017, 1013, 1009, 1004, 1000, 996, 992,
988, 984, 980, 976, 972, 968, 964, 960, 956, 952, 948, 944,
940, 936, 932, 928, 925, 921, 917, 913, 909, 905, 901, 897,
893, 889, 885, 881, 878, 874, 870, 866, 862, 858, 854, 850,
847, 843, 839, 835, 831, 828, 824, 820, 816, 812, 808, 805,
801, 797, 793, 790, 786, 782, 778, 775, 771, 767, 763, 760,
756, 752, 748, 745, 741, 737, 734, 730, 726, 723, 719, 715,
711, 708, 704, 700, 697, 693, 690, 686, 682, 679, 675, 671,
668, 664, 661, 657, 653, 650, 646, 643, 639, 635, 632, 628,
625, 621, 618, 614, 610, 607, 603, 600, 596, 593, 589, 586,
582, 579, 575, 572, 568, 565, 561, 558, 554, 551, 547, 544,
540, 537, 533, 530, 527, 523, 520, 516, 513, 509, 506, 502,
499, 496, 492, 489, 485, 482, 479, 475, 472, 468, 465, 462,
458, 455, 452, 448, 445, 442, 438, 435, 432, 428, 425, 422,
418, 415, 412, 408, 405, 402, 398, 395, 392, 388, 385, 382,
379, 375, 372, 369, 366, 362, 359, 356, 352, 349, 346, 343,
340, 336, 333, 330, 327, 323, 320, 317, 314, 311, 307, 304,
301, 298, 295, 291, 288, 285, 282, 279, 275, 272, 269, 266,
263, 260, 257, 253, 250, 247, 244, 241, 238, 235, 231, 228,
225, 222, 219, 216, 213, 210, 207, 204, 200, 197, 194, 191,
188, 185, 182, 179, 176, 173, 170, 167, 164, 161, 158, 154,
151, 148, 145, 142, 139, 136, 133, 130, 127, 124, 121, 118,
115, 112, 109, 106, 103, 100, 97, 94, 91, 88, 85, 82,
79, 76, 74, 71, 68, 65, 62, 59, 56, 53, 50, 47,
44, 41, 38, 35, 32, 29, 27, 24, 21, 18, 15, 12,
9, 6, 3, 0,
};
