------------------------------- MODULE Special -------------------------------
(* ln(1 + e^u), e^u, ln x and the normal distribution function from tables,     *)
(* interpolated linearly (written by tools/special.py); exact products.         *)
EXTENDS LogArith
\* x * k / 1000000 without overflow
MulE6(x, k) == LET s == IF x < 0 THEN -1 ELSE 1
                   y == AbsL(x)
                   t == IF k < 0 THEN -s ELSE s
                   j == AbsL(k)
                   xh == y \div 1000 xl == y % 1000 kh == j \div 1000 kl == j % 1000
               IN t * (xh * kh + (xh * kl + xl * kh) \div 1000)
\* x * k / 1000
MulE3(x, k) == (x \div 1000) * k + ((x % 1000) * k) \div 1000
\* 1000 x / b
DivE3(x, b) == (x \div b) * 1000 + ((x % b) * 1000) \div b
SoftT == <<6, 6, 6, 7, 7, 7, 7, 7, 7, 7, 8, 8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 10, 10, 10, 10, 10, 11, 11, 11, 11, 11, 12, 
  12, 12, 12, 13, 13, 13, 13, 14, 14, 14, 15, 15, 15, 15, 16, 16, 16, 17, 17, 17, 18, 18, 18, 19, 19, 20, 20, 
  20, 21, 21, 22, 22, 23, 23, 23, 24, 24, 25, 25, 26, 26, 27, 28, 28, 29, 29, 30, 30, 31, 32, 32, 33, 34, 34, 
  35, 36, 36, 37, 38, 39, 39, 40, 41, 42, 43, 44, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 57, 58, 59, 
  60, 61, 63, 64, 65, 66, 68, 69, 70, 72, 73, 75, 76, 78, 79, 81, 83, 84, 86, 88, 90, 91, 93, 95, 97, 99, 101, 
  103, 105, 107, 109, 112, 114, 116, 119, 121, 123, 126, 128, 131, 134, 136, 139, 142, 145, 148, 151, 154, 157, 
  160, 163, 167, 170, 173, 177, 180, 184, 188, 192, 195, 199, 203, 208, 212, 216, 220, 225, 229, 234, 239, 244, 
  248, 254, 259, 264, 269, 275, 280, 286, 292, 297, 303, 310, 316, 322, 329, 335, 342, 349, 356, 363, 371, 378, 
  386, 394, 402, 410, 418, 426, 435, 444, 453, 462, 471, 481, 490, 500, 510, 521, 531, 542, 553, 564, 575, 587, 
  599, 611, 623, 636, 649, 662, 675, 689, 703, 717, 732, 746, 761, 777, 792, 808, 825, 841, 858, 876, 893, 911, 
  930, 949, 968, 987, 1007, 1028, 1048, 1070, 1091, 1113, 1136, 1159, 1182, 1206, 1230, 1255, 1280, 1306, 1333, 
  1359, 1387, 1415, 1443, 1473, 1502, 1533, 1564, 1595, 1627, 1660, 1694, 1728, 1763, 1798, 1835, 1872, 1909, 
  1948, 1987, 2027, 2068, 2110, 2153, 2196, 2240, 2286, 2332, 2379, 2427, 2476, 2526, 2577, 2629, 2682, 2736, 
  2791, 2847, 2905, 2963, 3023, 3084, 3146, 3210, 3274, 3340, 3408, 3476, 3547, 3618, 3691, 3765, 3841, 3919, 
  3998, 4078, 4161, 4245, 4330, 4417, 4506, 4597, 4690, 4784, 4881, 4979, 5080, 5182, 5286, 5393, 5501, 5612, 
  5725, 5841, 5958, 6078, 6201, 6326, 6453, 6583, 6715, 6851, 6988, 7129, 7273, 7419, 7568, 7721, 7876, 8034, 
  8196, 8361, 8529, 8701, 8876, 9054, 9236, 9422, 9611, 9805, 10002, 10203, 10408, 10617, 10830, 11048, 11270, 
  11496, 11727, 11962, 12203, 12448, 12697, 12952, 13212, 13477, 13748, 14024, 14305, 14592, 14884, 15183, 
  15487, 15797, 16114, 16437, 16766, 17102, 17444, 17794, 18150, 18513, 18884, 19262, 19647, 20040, 20440, 
  20849, 21266, 21691, 22124, 22566, 23017, 23476, 23945, 24423, 24910, 25407, 25914, 26430, 26957, 27494, 
  28042, 28600, 29170, 29750, 30342, 30946, 31561, 32189, 32828, 33481, 34146, 34824, 35515, 36219, 36938, 
  37670, 38416, 39177, 39953, 40744, 41550, 42372, 43210, 44064, 44934, 45822, 46726, 47648, 48587, 49545, 
  50521, 51516, 52530, 53563, 54616, 55689, 56783, 57897, 59033, 60190, 61370, 62571, 63796, 65044, 66315, 
  67610, 68930, 70275, 71645, 73040, 74462, 75911, 77387, 78890, 80421, 81981, 83570, 85188, 86836, 88515, 
  90225, 91966, 93739, 95545, 97385, 99257, 101164, 103106, 105083, 107096, 109146, 111233, 113357, 115520, 
  117721, 119962, 122243, 124565, 126928, 129333, 131781, 134272, 136807, 139387, 142012, 144683, 147400, 
  150165, 152978, 155839, 158750, 161711, 164723, 167786, 170902, 174070, 177292, 180569, 183901, 187288, 
  190733, 194235, 197794, 201413, 205092, 208831, 212631, 216493, 220417, 224406, 228458, 232575, 236759, 
  241008, 245326, 249711, 254165, 258688, 263282, 267948, 272685, 277495, 282378, 287335, 292368, 297476, 
  302660, 307922, 313262, 318680, 324178, 329755, 335414, 341154, 346976, 352881, 358870, 364943, 371101, 
  377344, 383674, 390090, 396594, 403186, 409867, 416637, 423497, 430447, 437488, 444621, 451845, 459163, 
  466573, 474077, 481675, 489367, 497154, 505037, 513015, 521090, 529260, 537528, 545893, 554355, 562915, 
  571573, 580330, 589185, 598139, 607192, 616344, 625595, 634946, 644397, 653947, 663597, 673347, 683197, 
  693147, 703197, 713347, 723597, 733947, 744397, 754946, 765595, 776344, 787192, 798139, 809185, 820330, 
  831573, 842915, 854355, 865893, 877528, 889260, 901090, 913015, 925037, 937154, 949367, 961675, 974077, 
  986573, 999163, 1011845, 1024621, 1037488, 1050447, 1063497, 1076637, 1089867, 1103186, 1116594, 1130090, 
  1143674, 1157344, 1171101, 1184943, 1198870, 1212881, 1226976, 1241154, 1255414, 1269755, 1284178, 1298680, 
  1313262, 1327922, 1342660, 1357476, 1372368, 1387335, 1402378, 1417495, 1432685, 1447948, 1463282, 1478688, 
  1494165, 1509711, 1525326, 1541008, 1556759, 1572575, 1588458, 1604406, 1620417, 1636493, 1652631, 1668831, 
  1685092, 1701413, 1717794, 1734235, 1750733, 1767288, 1783901, 1800569, 1817292, 1834070, 1850902, 1867786, 
  1884723, 1901711, 1918750, 1935839, 1952978, 1970165, 1987400, 2004683, 2022012, 2039387, 2056807, 2074272, 
  2091781, 2109333, 2126928, 2144565, 2162243, 2179962, 2197721, 2215520, 2233357, 2251233, 2269146, 2287096, 
  2305083, 2323106, 2341164, 2359257, 2377385, 2395545, 2413739, 2431966, 2450225, 2468515, 2486836, 2505188, 
  2523570, 2541981, 2560421, 2578890, 2597387, 2615911, 2634462, 2653040, 2671645, 2690275, 2708930, 2727610, 
  2746315, 2765044, 2783796, 2802571, 2821370, 2840190, 2859033, 2877897, 2896783, 2915689, 2934616, 2953563, 
  2972530, 2991516, 3010521, 3029545, 3048587, 3067648, 3086726, 3105822, 3124934, 3144064, 3163210, 3182372, 
  3201550, 3220744, 3239953, 3259177, 3278416, 3297670, 3316938, 3336219, 3355515, 3374824, 3394146, 3413481, 
  3432828, 3452189, 3471561, 3490946, 3510342, 3529750, 3549170, 3568600, 3588042, 3607494, 3626957, 3646430, 
  3665914, 3685407, 3704910, 3724423, 3743945, 3763476, 3783017, 3802566, 3822124, 3841691, 3861266, 3880849, 
  3900440, 3920040, 3939647, 3959262, 3978884, 3998513, 4018150, 4037794, 4057444, 4077102, 4096766, 4116437, 
  4136114, 4155797, 4175487, 4195183, 4214884, 4234592, 4254305, 4274024, 4293748, 4313477, 4333212, 4352952, 
  4372697, 4392448, 4412203, 4431962, 4451727, 4471496, 4491270, 4511048, 4530830, 4550617, 4570408, 4590203, 
  4610002, 4629805, 4649611, 4669422, 4689236, 4709054, 4728876, 4748701, 4768529, 4788361, 4808196, 4828034, 
  4847876, 4867721, 4887568, 4907419, 4927273, 4947129, 4966988, 4986851, 5006715, 5026583, 5046453, 5066326, 
  5086201, 5106078, 5125958, 5145841, 5165725, 5185612, 5205501, 5225393, 5245286, 5265182, 5285080, 5304979, 
  5324881, 5344784, 5364690, 5384597, 5404506, 5424417, 5444330, 5464245, 5484161, 5504078, 5523998, 5543919, 
  5563841, 5583765, 5603691, 5623618, 5643547, 5663476, 5683408, 5703340, 5723274, 5743210, 5763146, 5783084, 
  5803023, 5822963, 5842905, 5862847, 5882791, 5902736, 5922682, 5942629, 5962577, 5982526, 6002476, 6022427, 
  6042379, 6062332, 6082286, 6102240, 6122196, 6142153, 6162110, 6182068, 6202027, 6221987, 6241948, 6261909, 
  6281872, 6301835, 6321798, 6341763, 6361728, 6381694, 6401660, 6421627, 6441595, 6461564, 6481533, 6501502, 
  6521473, 6541443, 6561415, 6581387, 6601359, 6621333, 6641306, 6661280, 6681255, 6701230, 6721206, 6741182, 
  6761159, 6781136, 6801113, 6821091, 6841070, 6861048, 6881028, 6901007, 6920987, 6940968, 6960949, 6980930, 
  7000911, 7020893, 7040876, 7060858, 7080841, 7100825, 7120808, 7140792, 7160777, 7180761, 7200746, 7220732, 
  7240717, 7260703, 7280689, 7300675, 7320662, 7340649, 7360636, 7380623, 7400611, 7420599, 7440587, 7460575, 
  7480564, 7500553, 7520542, 7540531, 7560521, 7580510, 7600500, 7620490, 7640481, 7660471, 7680462, 7700453, 
  7720444, 7740435, 7760426, 7780418, 7800410, 7820402, 7840394, 7860386, 7880378, 7900371, 7920363, 7940356, 
  7960349, 7980342, 8000335, 8020329, 8040322, 8060316, 8080310, 8100303, 8120297, 8140292, 8160286, 8180280, 
  8200275, 8220269, 8240264, 8260259, 8280254, 8300248, 8320244, 8340239, 8360234, 8380229, 8400225, 8420220, 
  8440216, 8460212, 8480208, 8500203, 8520199, 8540195, 8560192, 8580188, 8600184, 8620180, 8640177, 8660173, 
  8680170, 8700167, 8720163, 8740160, 8760157, 8780154, 8800151, 8820148, 8840145, 8860142, 8880139, 8900136, 
  8920134, 8940131, 8960128, 8980126, 9000123, 9020121, 9040119, 9060116, 9080114, 9100112, 9120109, 9140107, 
  9160105, 9180103, 9200101, 9220099, 9240097, 9260095, 9280093, 9300091, 9320090, 9340088, 9360086, 9380084, 
  9400083, 9420081, 9440079, 9460078, 9480076, 9500075, 9520073, 9540072, 9560070, 9580069, 9600068, 9620066, 
  9640065, 9660064, 9680063, 9700061, 9720060, 9740059, 9760058, 9780057, 9800055, 9820054, 9840053, 9860052, 
  9880051, 9900050, 9920049, 9940048, 9960047, 9980046, 10000045, 10020044, 10040044, 10060043, 10080042, 
  10100041, 10120040, 10140039, 10160039, 10180038, 10200037, 10220036, 10240036, 10260035, 10280034, 10300034, 
  10320033, 10340032, 10360032, 10380031, 10400030, 10420030, 10440029, 10460029, 10480028, 10500028, 10520027, 
  10540026, 10560026, 10580025, 10600025, 10620024, 10640024, 10660023, 10680023, 10700023, 10720022, 10740022, 
  10760021, 10780021, 10800020, 10820020, 10840020, 10860019, 10880019, 10900018, 10920018, 10940018, 10960017, 
  10980017, 11000017, 11020016, 11040016, 11060016, 11080015, 11100015, 11120015, 11140015, 11160014, 11180014, 
  11200014, 11220013, 11240013, 11260013, 11280013, 11300012, 11320012, 11340012, 11360012, 11380011, 11400011, 
  11420011, 11440011, 11460011, 11480010, 11500010, 11520010, 11540010, 11560010, 11580009, 11600009, 11620009, 
  11640009, 11660009, 11680008, 11700008, 11720008, 11740008, 11760008, 11780008, 11800008, 11820007, 11840007, 
  11860007, 11880007, 11900007, 11920007, 11940007, 11960006, 11980006, 12000006>>
ExpT == <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7, 7, 7, 7, 7, 7, 7, 8, 
  8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 10, 10, 10, 10, 10, 11, 11, 11, 11, 11, 12, 12, 12, 12, 13, 13, 13, 13, 14, 
  14, 14, 15, 15, 15, 15, 16, 16, 16, 17, 17, 17, 18, 18, 18, 19, 19, 20, 20, 20, 21, 21, 22, 22, 23, 23, 23, 
  24, 24, 25, 25, 26, 26, 27, 28, 28, 29, 29, 30, 30, 31, 32, 32, 33, 34, 34, 35, 36, 36, 37, 38, 39, 39, 40, 
  41, 42, 43, 44, 45, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 57, 58, 59, 60, 61, 63, 64, 65, 66, 68, 69, 
  70, 72, 73, 75, 76, 78, 79, 81, 83, 84, 86, 88, 90, 91, 93, 95, 97, 99, 101, 103, 105, 107, 109, 112, 114, 
  116, 119, 121, 123, 126, 128, 131, 134, 136, 139, 142, 145, 148, 151, 154, 157, 160, 163, 167, 170, 173, 177, 
  180, 184, 188, 192, 195, 199, 203, 208, 212, 216, 220, 225, 229, 234, 239, 244, 249, 254, 259, 264, 269, 275, 
  280, 286, 292, 298, 304, 310, 316, 322, 329, 335, 342, 349, 356, 363, 371, 378, 386, 394, 402, 410, 418, 426, 
  435, 444, 453, 462, 471, 481, 491, 500, 511, 521, 531, 542, 553, 564, 576, 587, 599, 611, 624, 636, 649, 662, 
  676, 689, 703, 717, 732, 747, 762, 777, 793, 809, 825, 842, 859, 876, 894, 912, 930, 949, 968, 988, 1008, 
  1028, 1049, 1070, 1092, 1114, 1136, 1159, 1183, 1207, 1231, 1256, 1281, 1307, 1333, 1360, 1388, 1416, 1444, 
  1474, 1503, 1534, 1565, 1596, 1629, 1662, 1695, 1729, 1764, 1800, 1836, 1873, 1911, 1950, 1989, 2029, 2070, 
  2112, 2155, 2198, 2243, 2288, 2334, 2382, 2430, 2479, 2529, 2580, 2632, 2685, 2739, 2795, 2851, 2909, 2968, 
  3028, 3089, 3151, 3215, 3280, 3346, 3414, 3483, 3553, 3625, 3698, 3773, 3849, 3927, 4006, 4087, 4169, 4254, 
  4339, 4427, 4517, 4608, 4701, 4796, 4893, 4992, 5092, 5195, 5300, 5407, 5517, 5628, 5742, 5858, 5976, 6097, 
  6220, 6346, 6474, 6605, 6738, 6874, 7013, 7155, 7299, 7447, 7597, 7750, 7907, 8067, 8230, 8396, 8566, 8739, 
  8915, 9095, 9279, 9466, 9658, 9853, 10052, 10255, 10462, 10673, 10889, 11109, 11333, 11562, 11796, 12034, 
  12277, 12525, 12778, 13037, 13300, 13569, 13843, 14122, 14408, 14699, 14996, 15299, 15608, 15923, 16245, 
  16573, 16907, 17249, 17597, 17953, 18316, 18686, 19063, 19448, 19841, 20242, 20651, 21068, 21494, 21928, 
  22371, 22823, 23284, 23754, 24234, 24724, 25223, 25733, 26252, 26783, 27324, 27876, 28439, 29013, 29599, 
  30197, 30807, 31430, 32065, 32712, 33373, 34047, 34735, 35437, 36153, 36883, 37628, 38388, 39164, 39955, 
  40762, 41586, 42426, 43283, 44157, 45049, 45959, 46888, 47835, 48801, 49787, 50793, 51819, 52866, 53934, 
  55023, 56135, 57269, 58426, 59606, 60810, 62039, 63292, 64570, 65875, 67206, 68563, 69948, 71361, 72803, 
  74274, 75774, 77305, 78866, 80460, 82085, 83743, 85435, 87161, 88922, 90718, 92551, 94420, 96328, 98274, 
  100259, 102284, 104350, 106459, 108609, 110803, 113042, 115325, 117655, 120032, 122456, 124930, 127454, 
  130029, 132655, 135335, 138069, 140858, 143704, 146607, 149569, 152590, 155673, 158817, 162026, 165299, 
  168638, 172045, 175520, 179066, 182684, 186374, 190139, 193980, 197899, 201897, 205975, 210136, 214381, 
  218712, 223130, 227638, 232236, 236928, 241714, 246597, 251579, 256661, 261846, 267135, 272532, 278037, 
  283654, 289384, 295230, 301194, 307279, 313486, 319819, 326280, 332871, 339596, 346456, 353455, 360595, 
  367879, 375311, 382893, 390628, 398519, 406570, 414783, 423162, 431711, 440432, 449329, 458406, 467666, 
  477114, 486752, 496585, 506617, 516851, 527292, 537944, 548812, 559898, 571209, 582748, 594521, 606531, 
  618783, 631284, 644036, 657047, 670320, 683861, 697676, 711770, 726149, 740818, 755784, 771052, 786628, 
  802519, 818731, 835270, 852144, 869358, 886920, 904837, 923116, 941765, 960789, 980199, 1000000, 1020201, 
  1040811, 1061837, 1083287, 1105171, 1127497, 1150274, 1173511, 1197217, 1221403, 1246077, 1271249, 1296930, 
  1323130, 1349859, 1377128, 1404948, 1433329, 1462285, 1491825, 1521962, 1552707, 1584074, 1616074, 1648721, 
  1682028, 1716007, 1750673, 1786038, 1822119, 1858928, 1896481, 1934792, 1973878, 2013753, 2054433, 2095936, 
  2138276, 2181472, 2225541, 2270500, 2316367, 2363161, 2410900, 2459603, 2509290, 2559981, 2611696, 2664456, 
  2718282, 2773195, 2829217, 2886371, 2944680, 3004166, 3064854, 3126768, 3189933, 3254374, 3320117, 3387188, 
  3455613, 3525421, 3596640, 3669297, 3743421, 3819044, 3896193, 3974902, 4055200, 4137120, 4220696, 4305960, 
  4392946, 4481689, 4572225, 4664590, 4758821, 4854956, 4953032, 5053090, 5155170, 5259311, 5365556, 5473947, 
  5584528, 5697343, 5812437, 5929856, 6049647, 6171858, 6296538, 6423737, 6553505, 6685894, 6820958, 6958751, 
  7099327, 7242743, 7389056, 7538325, 7690609, 7845970, 8004469, 8166170, 8331137, 8499438, 8671138, 8846306, 
  9025013, 9207331, 9393331, 9583089, 9776680, 9974182, 10175674, 10381237, 10590951, 10804903, 11023176, 
  11245859, 11473041, 11704812, 11941264, 12182494, 12428597, 12679671, 12935817, 13197138, 13463738, 13735724, 
  14013204, 14296289, 14585093, 14879732, 15180322, 15486985, 15799843, 16119021, 16444647, 16776851, 17115766, 
  17461527, 17814273, 18174145, 18541287, 18915846, 19297972, 19687817, 20085537, 20491292, 20905243, 21327557, 
  21758402, 22197951, 22646380, 23103867, 23570596, 24046754, 24532530, 25028120, 25533722, 26049537, 26575773, 
  27112639, 27660351, 28219127, 28789191, 29370771, 29964100, 30569415, 31186958, 31816977, 32459722, 33115452, 
  33784428, 34466919, 35163197, 35873541, 36598234, 37337568, 38091837, 38861343, 39646394, 40447304, 41264394, 
  42097990, 42948426, 43816042, 44701184, 45604208, 46525474, 47465351, 48424215, 49402449, 50400445, 51418601, 
  52457326, 53517034, 54598150, 55701106, 56826343, 57974311, 59145470, 60340288, 61559242, 62802821, 64071523, 
  65365853, 66686331, 68033484, 69407852, 70809983, 72240440, 73699794, 75188628, 76707539, 78257134, 79838033, 
  81450869, 83096285, 84774942, 86487509, 88234673, 90017131>>
PhiT == <<500000, 507978, 515953, 523922, 531881, 539828, 547758, 555670, 563559, 571424, 579260, 587064, 594835, 
  602568, 610261, 617911, 625516, 633072, 640576, 648027, 655422, 662757, 670031, 677242, 684386, 691462, 
  698468, 705401, 712260, 719043, 725747, 732371, 738914, 745373, 751748, 758036, 764238, 770350, 776373, 
  782305, 788145, 793892, 799546, 805105, 810570, 815940, 821214, 826391, 831472, 836457, 841345, 846136, 
  850830, 855428, 859929, 864334, 868643, 872857, 876976, 881000, 884930, 888768, 892512, 896165, 899727, 
  903200, 906582, 909877, 913085, 916207, 919243, 922196, 925066, 927855, 930563, 933193, 935745, 938220, 
  940620, 942947, 945201, 947384, 949497, 951543, 953521, 955435, 957284, 959070, 960796, 962462, 964070, 
  965620, 967116, 968557, 969946, 971283, 972571, 973810, 975002, 976148, 977250, 978308, 979325, 980301, 
  981237, 982136, 982997, 983823, 984614, 985371, 986097, 986791, 987455, 988089, 988696, 989276, 989830, 
  990358, 990863, 991344, 991802, 992240, 992656, 993053, 993431, 993790, 994132, 994457, 994766, 995060, 
  995339, 995604, 995855, 996093, 996319, 996533, 996736, 996928, 997110, 997282, 997445, 997599, 997744, 
  997882, 998012, 998134, 998250, 998359, 998462, 998559, 998650, 998736, 998817, 998893, 998965, 999032, 
  999096, 999155, 999211, 999264, 999313, 999359, 999402, 999443, 999481, 999517, 999550, 999581, 999610, 
  999638, 999663, 999687, 999709, 999730, 999749, 999767, 999784, 999800, 999815, 999828, 999841, 999853, 
  999864, 999874, 999883, 999892, 999900, 999908, 999915, 999922, 999928, 999933, 999938, 999943, 999948, 
  999952, 999956, 999959, 999963, 999966, 999968, 999971, 999973, 999975, 999977, 999979, 999981, 999983, 
  999984, 999985, 999987, 999988, 999989, 999990, 999991, 999991, 999992, 999993, 999993, 999994, 999995, 
  999995, 999996, 999996, 999996, 999997, 999997, 999997, 999997, 999998, 999998, 999998, 999998, 999998, 
  999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 1000000, 1000000, 
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>
LnT == <<-693147, -673345, -653926, -634878, -616186, -597837, -579818, -562119, -544727, -527633, -510826, -494296, 
  -478036, -462035, -446287, -430783, -415515, -400478, -385662, -371064, -356675, -342490, -328504, -314711, 
  -301105, -287682, -274437, -261365, -248461, -235722, -223144, -210721, -198451, -186330, -174353, -162519, 
  -150823, -139262, -127833, -116534, -105361, -94311, -83382, -72571, -61875, -51293, -40822, -30459, -20203, 
  -10050, 0, 9950, 19803, 29559, 39221, 48790, 58269, 67659, 76961, 86178, 95310, 104360, 113329, 122218, 
  131028, 139762, 148420, 157004, 165514, 173953, 182322, 190620, 198851, 207014, 215111, 223144, 231112, 
  239017, 246860, 254642, 262364, 270027, 277632, 285179, 292670, 300105, 307485, 314811, 322083, 329304, 
  336472, 343590, 350657, 357674, 364643, 371564, 378436, 385262, 392042, 398776, 405465, 412110, 418710, 
  425268, 431782, 438255, 444686, 451076, 457425, 463734, 470004, 476234, 482426, 488580, 494696, 500775, 
  506818, 512824, 518794, 524729, 530628, 536493, 542324, 548121, 553885, 559616, 565314, 570980, 576613, 
  582216, 587787, 593327, 598837, 604316, 609766, 615186, 620576, 625938, 631272, 636577, 641854, 647103, 
  652325, 657520, 662688, 667829, 672944, 678034, 683097, 688135, 693147, 698135, 703098, 708036, 712950, 
  717840, 722706, 727549, 732368, 737164, 741937, 746688, 751416, 756122, 760806, 765468, 770108, 774727, 
  779325, 783902, 788457, 792993, 797507, 802002, 806476, 810930, 815365, 819780, 824175, 828552, 832909, 
  837248, 841567, 845868, 850151, 854415, 858662, 862890, 867100, 871293, 875469, 879627, 883768, 887891, 
  891998, 896088, 900161, 904218, 908259, 912283, 916291, 920283, 924259, 928219, 932164, 936093, 940007, 
  943906, 947789, 951658, 955511, 959350, 963174, 966984, 970779, 974560, 978326, 982078, 985817, 989541, 
  993252, 996949, 1000632, 1004302, 1007958, 1011601, 1015231, 1018847, 1022451, 1026042, 1029619, 1033184, 
  1036737, 1040277, 1043804, 1047319, 1050822, 1054312, 1057790, 1061257, 1064711, 1068153, 1071584, 1075002, 
  1078410, 1081805, 1085189, 1088562, 1091923, 1095273, 1098612, 1101940, 1105257, 1108563, 1111858, 1115142, 
  1118415, 1121678, 1124930, 1128171, 1131402, 1134623, 1137833, 1141033, 1144223, 1147402, 1150572, 1153732, 
  1156881, 1160021, 1163151, 1166271, 1169381, 1172482, 1175573, 1178655, 1181727, 1184790, 1187843, 1190888, 
  1193922, 1196948, 1199965, 1202972, 1205971, 1208960, 1211941, 1214913, 1217876, 1220830, 1223775, 1226712, 
  1229641, 1232560, 1235471, 1238374, 1241269, 1244155, 1247032, 1249902, 1252763, 1255616, 1258461, 1261298, 
  1264127, 1266948, 1269761, 1272566, 1275363, 1278152, 1280934, 1283708, 1286474, 1289233, 1291984, 1294727, 
  1297463, 1300192, 1302913, 1305626, 1308333, 1311032, 1313724, 1316408, 1319086, 1321756, 1324419, 1327075, 
  1329724, 1332366, 1335001, 1337629, 1340250, 1342865, 1345472, 1348073, 1350667, 1353255, 1355835, 1358409, 
  1360977, 1363537, 1366092, 1368639, 1371181, 1373716, 1376244, 1378766, 1381282, 1383791, 1386294, 1388791, 
  1391282, 1393766, 1396245, 1398717, 1401183, 1403643, 1406097, 1408545, 1410987, 1413423, 1415853, 1418277, 
  1420696, 1423108, 1425515, 1427916, 1430311, 1432701, 1435085, 1437463, 1439835, 1442202, 1444563, 1446919, 
  1449269, 1451614, 1453953, 1456287, 1458615, 1460938, 1463255, 1465568, 1467874, 1470176, 1472472, 1474763, 
  1477049, 1479329, 1481605, 1483875, 1486140, 1488400, 1490654, 1492904, 1495149, 1497388, 1499623, 1501853, 
  1504077, 1506297, 1508512, 1510722, 1512927, 1515127, 1517323, 1519513, 1521699, 1523880, 1526056, 1528228, 
  1530395, 1532557, 1534714, 1536867, 1539015, 1541159, 1543298, 1545433, 1547563, 1549688, 1551809, 1553925, 
  1556037, 1558145, 1560248, 1562346, 1564441, 1566530, 1568616, 1570697, 1572774, 1574846, 1576915, 1578979, 
  1581038, 1583094, 1585145, 1587192, 1589235, 1591274, 1593309, 1595339, 1597365, 1599388, 1601406, 1603420, 
  1605430, 1607436, 1609438>>
Step == 20000
Interp(t, i, r) == t[i] + (((t[i + 1] - t[i]) * (r \div 20)) \div 1000)
SoftPlus(u) == IF u = ZERO \/ u <= -12000000 THEN 0 ELSE IF u >= 12000000 THEN u
               ELSE LET v == u + 12000000 IN Interp(SoftT, v \div Step + 1, v % Step)
\* e^u in millionths, for u up to 4.48
ExpE6(u) == IF u <= -14000000 THEN 0 ELSE LET v == u + 14000000 IN Interp(ExpT, v \div Step + 1, v % Step)
\* normal distribution function in millionths of x in millionths
PhiPos(x) == IF x >= 6000000 THEN 1000000 ELSE Interp(PhiT, x \div Step + 1, x % Step)
\* ln of x in millionths, 0.5 <= x <= 5
LnE6(x) == LET v == x - 500000 i == v \div 10000 + 1 r == v % 10000
           IN IF i >= 451 THEN LnT[451] ELSE LnT[i] + ((LnT[i + 1] - LnT[i]) * r) \div 10000
Phi(x) == IF x >= 0 THEN PhiPos(x) ELSE 1000000 - PhiPos(-x)
=============================================================================
